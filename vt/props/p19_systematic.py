"""Systematic alternatives: codes made from categories identify rows, decode to their categories and carry the data along."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close, raises
from vt import gen

CATS = {"band": [3, 1, 2, 7, 5, 10, 12], "carrier": ["UA", "DL", "AA", "WN", "B6"], "stops": [0, 1, 2]}


@st.composite
def rows(draw):
    n = draw(st.integers(1, 4))
    out = []
    for c in range(n):
        k = draw(st.integers(1, 6 if c else 8))
        out += [(c, *draw(st.tuples(st.integers(0, 3), st.integers(0, 2), st.integers(0, 1)))) for _ in range(k)]
    return out


sys_spec = st.fixed_dictionaries({
    "rows": rows(), "other": rows(), "groupby": st.sampled_from([["band"], ["carrier"], ["band", "carrier"], ["carrier", "band"], ["band", "carrier", "stops"], ["stops"], []]),
    "one": st.booleans(), "padding": st.sampled_from([0, 1, 4, 4, 3]), "index": st.sampled_from(["multi", "named", "column"]), "take": st.booleans(),
    "prefix": st.booleans(), "name": st.sampled_from(["alternative_code", "altcode", "x"]), "overwrite": st.booleans(), "order": st.integers(0, 5),
    "complete": st.booleans(), "list": st.booleans(), "coverage": st.lists(st.integers(1, 3), min_size=3, max_size=3), "mu": st.booleans(),
    "chosen": gen.ints(4, 0, 7), "wt": st.booleans(), "x": gen.grid(32)})


def table(rs, xs, index):
    """A frame with one row for each (case, band, carrier, stops)."""
    d = {"case": [100 + 7 * r[0] for r in rs]}
    for j, (k, cats) in enumerate(CATS.items()):
        d[k] = [cats[r[j + 1]] for r in rs]
    d["x"] = [xs[i % len(xs)] + i // len(xs) for i in range(len(rs))]
    f = pd.DataFrame(d)
    if index == "multi":
        seen, alt = {}, []
        for c in f["case"]:
            seen[c] = seen.get(c, 0) + 1
            alt.append(seen[c])
        f.index = pd.MultiIndex.from_arrays([f.pop("case"), alt], names=["case", "row"])
    elif index == "named":
        f = f.set_index("case")
    return f


def cases_of(f):
    return list(f["case"]) if "case" in f else list(f.index.get_level_values(0))


def names_of(f, groupby, prefixes):
    """The name that each row must decode to."""
    count, out = {}, []
    for i, c in enumerate(cases_of(f)):
        cats = tuple(f[g].iloc[i] for g in groupby)
        count[c, cats] = count.get((c, cats), 0) + 1
        out.append("".join(f"{p}{v}-" for p, v in zip(prefixes, cats)) + str(count[c, cats]))
    return out


@check("P19", sys_spec, quick=1500)
def codes(spec, ctx):
    from larch.model.systematic_alternatives import new_alternative_codes
    import larch
    frames = [table(spec["rows"], spec["x"], spec["index"])]
    if spec["list"]:
        frames.append(table(spec["other"], spec["x"][3:], spec["index"]))
        ctx.label("two frames")
    gb = list(spec["groupby"])
    kw = {}
    if spec["index"] == "column":
        kw["caseindex"] = "case"
    prefixes = [""] * len(gb)
    if spec["prefix"]:
        prefixes = [g[0].upper() for g in gb]
        kw["groupby_prefixes"] = prefixes
    full = {}
    if spec["complete"]:
        for g in gb[:2]:
            full[g] = CATS[g][spec["order"] % 2:] + CATS[g][:spec["order"] % 2]
        kw["complete_features_list"] = full
        ctx.label("complete list")
    befores = [f.copy() for f in frames]
    out, sa = new_alternative_codes(
        frames if spec["list"] else frames[0], gb[0] if len(gb) == 1 and spec["one"] else gb,
        name=spec["name"], padding_levels=spec["padding"], overwrite=spec["overwrite"], **kw)
    outs = out if spec["list"] else [out]
    name = spec["name"] if spec["name"] != "x" or spec["overwrite"] else "x_v2"
    ever = {}
    for f, b, o in zip(frames, befores, outs):
        require(f.equals(b) and list(f.columns) == list(b.columns), "the table that was given changed")
        equal(list(o.index.names), ["case", name], "names of the index")
        equal(list(o.index.get_level_values(0)), cases_of(b), "cases")
        for c in b.columns:
            if c not in ("case", name):
                require(list(o[c]) == list(b[c]), "column", c, "changed")
        code = [int(c) for c in o.index.get_level_values(1)]
        want = names_of(b, gb, prefixes)
        equal([sa.alternative_name_from_code(c) for c in code], want, "names of the codes")
        require(len(set(o.index)) == len(o), "two rows of a case have one code")
        for c, n in zip(code, want):
            require(ever.setdefault(n, c) == c, "one alternative has two codes", n)
    require(len(set(ever.values())) == len(ever), "two alternatives have one code")
    equal([int(c) for c in sa.altcodes], sorted(ever.values()), "altcodes")
    equal(list(sa.altnames), [n for n, _ in sorted(ever.items(), key=lambda t: t[1])], "altnames")
    masks = [int(m) for m in sa.masks]
    require(all(masks[i] & masks[j] == 0 for i in range(len(masks)) for j in range(i)), "masks overlap", masks)
    require(all(c & ~sum(masks) == 0 for c in ever.values()), "codes reach beyond the masks")
    ctx.nontrivial(len(ever) > 2 and len(gb) > 0)
    ctx.label(f"{len(gb)} levels")
    # the same coding for other data
    later = table(spec["other"], spec["x"][1:], spec["index"])
    known = [all(any(str(v) == str(w) for w in sa._categoricals_source[g]) for g, v in zip(gb, t)) for t in zip(*[later[g] for g in gb])] if gb else [True]
    top = max(int(n.rsplit("-", 1)[-1]) for n in names_of(later, gb, prefixes))
    if all(known) and top <= masks[-1] and spec["name"] != "x":
        b = later.copy()
        o = sa.compute_alternative_codes(later)
        require(later.equals(b) and list(later.columns) == list(b.columns), "compute_alternative_codes changed its table")
        equal([sa.alternative_name_from_code(int(c)) for c in o.index.get_level_values(1)], names_of(b, gb, prefixes), "names of codes computed for other data")
        ctx.label("coded again")
    # nests
    if not gb:
        return
    m = larch.Model()
    m.initialize_graph(alternative_codes=[int(c) for c in sa.altcodes], alternative_names=sa.altnames)
    t = list(spec["coverage"][:len(gb)])
    t = [min(x, spec["padding"] + 1) for x in t]
    mus = [f"m{i}" for i in range(len(gb))] if spec["mu"] else None
    par = mus or [f"MU_{g}" for g in gb]
    if max(t) == 1 or spec["take"]:
        t = [1] * len(gb)
        m.magic_nesting(sa, mu_parameters=mus)
    else:
        m.magic_ogev_nesting(t, sa, mu_parameters=mus)
        ctx.label("ogev")
    shift = [(k & -k).bit_length() - 1 for k in masks[:-1]]

    def place(code, lev):
        return [(code & masks[i]) >> shift[i] for i in range(lev + 1)]

    def make(pos):
        return sum(p << shift[i] for i, p in enumerate(pos))
    nodes, edges = {0: "_root_"}, set()
    for c in ever.values():
        for lev in range(len(gb)):
            p = place(c, lev)
            for k in range(t[lev]):
                q = p[:-1] + [p[-1] + k]
                nodes[make(q)] = par[lev]
                ups = [0] if lev == 0 else [make(p[:lev - 1] + [p[lev - 1] + j]) for j in range(t[lev - 1])]
                edges |= {(u, make(q)) for u in ups}
                if lev == len(gb) - 1:
                    edges.add((make(q), c))
        nodes[c] = None
    equal(set(map(int, m.graph.nodes)), set(nodes), "nodes of the tree")
    equal({(int(a), int(b)) for a, b in m.graph.edges}, edges, "edges of the tree")
    for n, p in nodes.items():
        if n and p:
            equal(m.graph.nodes[n].get("parameter"), p, f"parameter of nest {n}")
            pos = place(n, len(gb) - 1)
            equal(m.graph.nodes[n].get("name"), "".join(
                "§-" if j == 0 else f"{sa.categoricals[i][j - 1]}-" if j <= len(sa.categoricals[i]) else f"+{j - len(sa.categoricals[i])}-"
                for i, j in enumerate(pos)) + "§", f"name of nest {n}")
    require(not spec["padding"] or raises(lambda: m.magic_ogev_nesting([spec["padding"] + 2] * len(gb), sa), ValueError), "more cross-nesting than padding is accepted")


@check("P19", sys_spec, quick=600)
def carried(spec, ctx):
    """DataFrames.new_systematic_alternatives keeps data, choices, availability and weights of every row."""
    from larch import DataFrames
    gb = list(spec["groupby"])
    f = table(spec["rows"], spec["x"], "multi")
    stops = f.pop("stops") if "stops" not in gb else None
    cats = {k: i for i, k in enumerate(CATS["carrier"])}
    f["carrier"] = f["carrier"].map(cats)
    f = f.astype(float)
    cases = sorted(set(cases_of(f)))
    ch = pd.Series(0.0, index=f.index)
    for i, c in enumerate(cases):
        own = [k for k in f.index if k[0] == c]
        ch.loc[own[spec["chosen"][i % 4] % len(own)]] = 1
    wt = pd.Series([1.0 + (i % 3) for i in range(len(cases))], index=pd.Index(cases, name="case")) if spec["wt"] else None
    co = pd.DataFrame({"inc": [10.0 * i for i in range(len(cases))]}, index=pd.Index(cases, name="case"))
    d = DataFrames(ce=f, co=co, ch=ch.rename("ch"), av=True, **({"wt": wt} if wt is not None else {}))
    n = d.new_systematic_alternatives(gb, name=spec["name"] + "_", padding_levels=spec["padding"])
    sa = n.sys_alts
    ctx.nontrivial(len(cases) > 1 and len(gb) > 0)
    want = names_of(f, gb, [""] * len(gb))
    equal(list(map(str, n.alternative_names())), list(sa.altnames), "alternative names")
    equal(list(map(int, n.alternative_codes())), [int(c) for c in sa.altcodes], "alternative codes")
    code = {nm: int(c) for nm, c in zip(sa.altnames, sa.altcodes)}
    equal(list(n.caseindex), cases, "cases")
    ce, chs, av = n.data_ca_or_ce, n.data_ch, n.data_av
    require(len(ce) == len(f), "number of rows", len(ce))
    have = {c: set() for c in cases}
    for i, (key, nm) in enumerate(zip(f.index, want)):
        k = (key[0], code[nm])
        have[key[0]].add(code[nm])
        for col in f.columns:
            equal(float(ce.loc[k, col]), float(f[col].iloc[i]), f"{col} of {nm} in case {key[0]}")
        equal(float(chs.loc[key[0], code[nm]]), float(ch.iloc[i]), f"choice of {nm} in case {key[0]}")
    for c in cases:
        for a in sa.altcodes:
            equal(bool(av.loc[c, a]), int(a) in have[c], f"availability of {a} in case {c}")
        equal(float(chs.loc[c].sum()), 1.0, f"chosen in case {c}")
        equal(float(n.data_co.loc[c, "inc"]), float(co.loc[c, "inc"]), f"inc of case {c}")
        if wt is not None:
            equal(float(n.data_wt.loc[c].iloc[0]) * n.weight_normalization, float(d.data_wt.loc[c].iloc[0]) * d.weight_normalization, f"weight of case {c}")
    require(list(d.data_ca_or_ce.index) == list(f.index), "the original changed")
    ctx.label(f"{len(gb)} levels")
