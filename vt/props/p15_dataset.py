"""Datasets built from tables hold each value of the table under its case and alternative."""
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close

NAMES = ["car", "bus", "walk", "air"]


@st.composite
def long_table(draw):
    n, J = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    ids = draw(st.lists(st.integers(0, 90), min_size=n, max_size=n, unique=True))
    text = draw(st.integers(0, 2)) == 0
    alts = list(draw(st.permutations(NAMES)))[:J] if text else draw(
        st.lists(st.integers(1, 12), min_size=J, max_size=J, unique=True))
    full = draw(st.booleans())
    b = draw(st.binary(min_size=6 * n * J, max_size=6 * n * J))
    rows = []
    for c in range(n):
        keep = [a for a in range(J) if full or b[c * J + a] % 3] or [b[c * J] % J]
        if draw(st.booleans()):
            keep = list(draw(st.permutations(keep)))
        rows += [[c, a] for a in keep]
    if draw(st.integers(0, 3)) == 0:
        rows = list(draw(st.permutations(rows)))
    byte = lambda k, r: b[k * n * J + rows[r][0] * J + rows[r][1]]
    bycase = lambda k, r: b[k * n * J + rows[r][0] * J]
    R = range(len(rows))
    cols = {"i": [byte(1, r) % 9 - 4 for r in R],
            "x": [byte(2, r) % 16 / 4 if byte(2, r) < 240 else float("nan") for r in R],
            "kc": [bycase(3, r) % 5 for r in R],
            "xc": [bycase(4, r) % 16 / 8 for r in R],
            "b": [bool(byte(5, r) % 2) for r in R],
            "s": ["abcd"[byte(4, r) % 4] for r in R]}
    names = draw(st.lists(st.sampled_from(list(cols)), min_size=1, max_size=6, unique=True))
    return {"ids": ids, "alts": alts, "rows": rows, "cols": {k: cols[k] for k in names},
            "cat": draw(st.booleans()), "spare": draw(st.integers(0, 3)) == 0}


def frame(t):
    tup = [(t["ids"][c], t["alts"][a]) for c, a in t["rows"]]
    cols = {k: np.array(v, dtype=object) if k == "s" else np.array(v) for k, v in t["cols"].items()}
    if t["spare"]:  # levels that no row uses
        tup = [(999, NAMES[0] if isinstance(t["alts"][0], str) else 20)] + tup
        cols = {k: np.concatenate([v[:1], v]) for k, v in cols.items()}
    df = pd.DataFrame(cols, index=pd.MultiIndex.from_tuples(tup, names=["cid", "aid"]))
    return df.iloc[1:] if t["spare"] else df


def same(u, v):
    return u == v or (u != u and v != v)


def cell(da, case, code):
    if "aid" in da.dims:
        return da.sel(cid=case, aid=code).item()
    equal(da.dims, ("cid",), "dimensions of " + str(da.name))
    return da.sel(cid=case).item()


def shape_label(t, ctx):
    n, J = len(t["ids"]), len(t["alts"])
    ctx.label("all rows" if len(t["rows"]) == n * len({a for _, a in t["rows"]}) else "missing rows",
              "named alternatives" if isinstance(t["alts"][0], str) else "coded alternatives",
              "unused levels" if t["spare"] else "used levels",
              "rows in order" if t["rows"] == sorted(t["rows"]) else "rows in another order")
    ctx.nontrivial(len(t["rows"]) >= 3 and J >= 2)


@st.composite
def dense_case(draw):
    t = draw(long_table())
    fill = draw(st.sampled_from([None, None, "scalar", "names", "types"]))
    used = sorted({t["alts"][a] for _, a in t["rows"]})
    names = draw(st.sampled_from([None, "list", "map"]))
    return {"t": t, "crack": draw(st.booleans()), "avail": draw(st.sampled_from([None, "av"])),
            "fill": fill, "fv": draw(st.sampled_from([-1, 0, 7])), "names": names,
            "order": draw(st.permutations(range(len(used))))}


@check("P15", dense_case(), quick=500)
def from_idca(spec, ctx):
    from larch.dataset import Dataset
    t = spec["t"]
    df = frame(t)
    before = df.copy(deep=True)
    shape_label(t, ctx)
    used = sorted({t["alts"][a] for _, a in t["rows"]})
    text = isinstance(used[0], str)
    kw = {"crack": spec["crack"]}
    av = "_avail_"
    if spec["avail"]:
        kw["avail"] = av = spec["avail"]
    order = spec["order"]
    if not text:
        code = {u: u for u in used}
        label = {u: u for u in used}
        if spec["names"] == "list":
            kw["altnames"] = [f"n{order[k]}" for k in range(len(used))]
            label = {u: f"n{order[k]}" for k, u in enumerate(used)}
        elif spec["names"] == "map":
            kw["altnames"] = {used[k]: f"n{used[k]}" for k in order}
            label = {u: f"n{u}" for u in used}
    else:
        code = {u: k + 1 for k, u in enumerate(used)}
        if spec["names"] == "list":
            kw["altnames"] = [used[k] for k in order]
            code = {used[k]: p + 1 for p, k in enumerate(order)}
        elif spec["names"] == "map":
            kw["altnames"] = {10 * (p + 1): used[k] for p, k in enumerate(order)}
            code = {used[k]: 10 * (p + 1) for p, k in enumerate(order)}
        label = {code[u]: u for u in used}
    fv = spec["fv"]
    filler = {}
    if spec["fill"] == "scalar":
        kw["fill_missing"] = fv
        filler = {k: fv for k in df}
    elif spec["fill"] == "names":
        kw["fill_missing"] = {k: fv for k in ("i", "kc") if k in df}
        filler = dict(kw["fill_missing"])
    elif spec["fill"] == "types":
        kw["fill_missing"] = {np.dtype("float64"): fv}
        filler = {k: fv for k in df if df[k].dtype == np.float64}
    ctx.label("cracked" if spec["crack"] else "not cracked", "fill " + str(spec["fill"]), "names " + str(spec["names"]))
    ds = Dataset.construct.from_idca(df, **kw)
    require(df.equals(before) and df.index.equals(before.index), "the caller's table is changed")
    ids = sorted({t["ids"][c] for c, _ in t["rows"]})
    equal(ds.dc.CASEID, "cid", "case dimension")
    equal(ds.dc.ALTID, "aid", "alternative dimension")
    equal(ds.dc.n_cases, len(ids), "number of cases")
    equal(ds.dc.n_alts, len(used), "number of alternatives")
    equal(sorted(ds.dc.caseids()), ids, "cases")
    equal(sorted(ds.dc.altids()), sorted(code.values()), "alternatives")
    equal({k: v for k, v in ds.dc.alts_mapping.items()}, label, "names of alternatives")
    have = {(t["ids"][c], t["alts"][a]): r for r, (c, a) in enumerate(t["rows"])}
    complete = len(have) == len(ids) * len(used)
    for k, v in t["cols"].items():
        da = ds[k]
        constant = all(len({v[r] for r, (c, a) in enumerate(t["rows"]) if c == cc}) == 1 for cc in {c for c, _ in t["rows"]})
        if spec["crack"] and constant and k in ("i", "x", "kc", "xc") and len(used) > 1:
            require("aid" not in da.dims, f"{k} does not vary within cases, and is kept by alternative")
        if not spec["crack"]:
            equal(set(da.dims), {"cid", "aid"}, "dimensions")
        for case in ids:
            for a in used:
                got = cell(da, case, code[a])
                r = have.get((case, a))
                if r is not None:
                    if v[r] != v[r] and "aid" not in da.dims:
                        continue  # missing data take the common value of the case
                    require(same(got, v[r]), f"{k} of case {case}, alternative {a}: got {got!r}, expected {v[r]!r}")
                elif "aid" in da.dims and k in filler:
                    require(same(got, filler[k]), f"{k} filled for case {case}, alternative {a}: got {got!r}, expected {filler[k]!r}")
                elif "aid" in da.dims and k == "x":
                    require(got != got, f"{k} of the missing row of case {case}, alternative {a}: {got!r}")
        if complete and "aid" in da.dims:
            equal(da.dtype, df[k].dtype, "type of " + k)
    equal(av in ds, not complete, "an availability array is present")
    if not complete:
        for case in ids:
            for a in used:
                equal(ds[av].sel(cid=case, aid=code[a]).item(), int((case, a) in have), f"availability of {a} in case {case}")


@st.composite
def sparse_case(draw):
    t = draw(long_table())
    return {"t": t, "crack": draw(st.booleans()), "ci": draw(st.sampled_from([None, "ci"])),
            "names": draw(st.sampled_from([None, "list", "map"])), "dim": draw(st.sampled_from([None, "row"])),
            "ai": draw(st.sampled_from([None, "ai"])), "cp": draw(st.sampled_from([None, "cp"])),
            "q": draw(st.sampled_from(["cid", "mask"])), "lim": draw(st.integers(-1, 91)),
            "mask": draw(st.lists(st.booleans(), min_size=5, max_size=5))}


def sparse_rows(ds, k):
    """{(case, alternative): value} as the pointers and positions say."""
    ptr = ds[ds.dc.CASEPTR].values
    cases, alts = ds[ds.dc.CASEID].values, ds[ds.dc.ALTID].values
    pos = ds[ds.dc.ALTIDX].values
    equal(len(ptr), len(cases) + 1, "number of case pointers")
    equal(ds[ds.dc.ALTIDX].dims, (ds.dc.CASEALT,), "dimension of the alternative positions")
    equal(int(ptr[0]), 0, "first pointer")
    equal(int(ptr[-1]), len(pos), "last pointer")
    out = {}
    da = ds[k]
    for c in range(len(cases)):
        for r in range(ptr[c], ptr[c + 1]):
            key = (int(cases[c]), alts[pos[r]])
            require(key not in out, f"two rows for {key}")
            out[key] = da.values[c] if da.dims == (ds.dc.CASEID,) else da.values[r]
    return out


@check("P15", sparse_case(), quick=500)
def from_idce(spec, ctx):
    from larch.dataset import Dataset
    t = spec["t"]
    df = frame(t)
    before = df.copy(deep=True)
    shape_label(t, ctx)
    kw = {"crack": spec["crack"]}
    for a, b in (("case_index", "ci"), ("dim_name", "dim"), ("alt_index", "ai"), ("case_pointer", "cp")):
        if spec[b]:
            kw[a] = spec[b]
    levels = sorted({t["alts"][a] for _, a in t["rows"]} | ({NAMES[0] if isinstance(t["alts"][0], str) else 20} if t["spare"] else set()))
    if spec["names"] == "list":
        kw["altnames"] = [f"n{a}" for a in levels]
    elif spec["names"] == "map":
        kw["altnames"] = {a: f"n{a}" for a in reversed(levels)}
    ds = Dataset.construct.from_idce(df, **kw)
    require(df.equals(before) and df.index.equals(before.index), "the caller's table is changed")
    want = {k: {(t["ids"][c], t["alts"][a]): v[r] for r, (c, a) in enumerate(t["rows"])} for k, v in t["cols"].items()}
    equal(list(ds.dc.altids()), levels, "alternatives")
    equal(ds.dc.alts_mapping, {a: f"n{a}" if spec["names"] else a for a in levels}, "names of alternatives")

    def verify(ds, keys):
        equal(sorted(int(c) for c in ds.dc.caseids()), sorted({c for c, _ in keys}), "cases")
        for k in t["cols"]:
            got = sparse_rows(ds, k)
            equal(sorted(got), sorted(keys), "rows")
            for key in keys:
                require(same(got[key], want[k][key]), f"{k} of {key}: got {got[key]!r}, expected {want[k][key]!r}")
        if spec["ci"]:
            ptr = ds[ds.dc.CASEPTR].values
            equal(ds["ci"].values, np.repeat(np.arange(len(ptr) - 1), np.diff(ptr)), "case positions")
    keys = [(t["ids"][c], t["alts"][a]) for c, a in t["rows"]]
    verify(ds, keys)
    for k, v in t["cols"].items():
        constant = all(len({v[r] for r, (c, a) in enumerate(t["rows"]) if c == cc}) == 1 for cc in {c for c, _ in t["rows"]})
        by_case = ds[k].dims == ("cid",)
        if not any(u != u for u in v):
            equal(by_case, bool(spec["crack"] and constant and k != "s"), f"{k} is kept by case")
    # a selection of cases
    cases = [int(c) for c in ds.dc.caseids()]
    if spec["q"] == "cid":
        keep = {c for c in cases if c > spec["lim"]}
        sub = ds.dc.query_cases(f"cid > {spec['lim']}")
    else:
        flags = [spec["mask"][k % 5] for k in range(len(cases))]
        keep = {c for c, f in zip(cases, flags) if f}
        sub = ds.assign(flag=("cid", np.array(flags, dtype=np.int8))).dc.query_cases("flag == 1")
    ctx.label("selection empty" if not keep else "selection full" if len(keep) == len(cases) else "selection partial")
    verify(sub, [k for k in keys if k[0] in keep])
    verify(ds, keys)


@st.composite
def wide_case(draw):
    n = draw(st.integers(1, 6))
    b = draw(st.binary(min_size=3 * n, max_size=3 * n))
    codes = draw(st.lists(st.integers(1, 12), min_size=1, max_size=4, unique=True))
    return {"ids": draw(st.lists(st.integers(0, 90), min_size=n, max_size=n, unique=True)),
            "i": [x % 9 for x in b[:n]], "x": [x % 16 / 4 if x < 240 else float("nan") for x in b[n:2 * n]],
            "s": ["abc"[x % 3] for x in b[2 * n:]], "codes": codes, "names": list(draw(st.permutations(NAMES)))[:len(codes)],
            "alts": draw(st.sampled_from(["none", "codes", "array", "index", "code: name", "name: code", "series"])),
            "idname": draw(st.sampled_from(["cid", None])), "lim": draw(st.integers(-1, 9)),
            "other": draw(st.sampled_from([0, 1, 2])), "join": draw(st.sampled_from(["outer", "inner", "left"]))}


@check("P15", wide_case(), quick=500)
def from_idco(spec, ctx):
    from larch.dataset import Dataset, merge
    n = len(spec["ids"])
    ctx.nontrivial(n >= 2 and len(spec["codes"]) >= 2)
    ctx.label("alternatives " + spec["alts"], "join " + spec["join"])
    df = pd.DataFrame({"i": spec["i"], "x": spec["x"], "s": np.array(spec["s"], dtype=object)},
                      index=pd.Index(spec["ids"], name=spec["idname"]))
    before = df.copy(deep=True)
    codes, names = spec["codes"], spec["names"]
    named = spec["alts"] in ("code: name", "name: code", "series")
    alts = {"none": None, "codes": codes, "array": np.array(codes), "index": pd.Index(codes, name="aid"),
            "code: name": dict(zip(codes, names)), "name: code": dict(zip(names, codes)),
            "series": pd.Series(names, index=pd.Index(codes, name="aid"))}[spec["alts"]]
    ds = Dataset.construct.from_idco(df, alts=alts)
    require(df.equals(before), "the caller's table is changed")
    dim = spec["idname"] or "index"

    def same_cases(ds, keep=lambda r: True):
        ids = [spec["ids"][r] for r in range(n) if keep(r)]
        equal(ds.dc.CASEID, dim, "case dimension")
        equal(list(ds.dc.caseids()), ids, "cases")
        equal(ds.dc.n_cases, len(ids), "number of cases")
        for k in "ixs":
            equal(ds[k].dims, (dim,), "dimensions")
            got = list(ds[k].values)
            want = [spec[k][r] for r in range(n) if keep(r)]
            require(len(got) == len(want) and all(map(same, got, want)), f"{k}: got {got}, expected {want}")
            equal(ds[k].dtype, df[k].dtype, "type of " + k)
        if alts is not None:
            equal(list(ds.dc.altids()), codes, "alternatives")
            equal(ds.dc.n_alts, len(codes), "number of alternatives")
            equal(ds.dc.alts_mapping, dict(zip(codes, names if named else codes)), "names of alternatives")
    same_cases(ds)
    same_cases(ds.dc.query_cases(f"i > {spec['lim']}"), lambda r: spec["i"][r] > spec["lim"])
    same_cases(ds.dc.query_cases("s == 'b'"), lambda r: spec["s"][r] == "b")
    # changed alternatives, in place or not
    two = ds.dc.set_altids([c + 1 for c in codes], dim_name="new")
    equal(list(two.dc.altids()), [c + 1 for c in codes], "new alternatives")
    three = two.dc.set_altnames({c + 1: m for c, m in zip(codes, names)})
    equal(three.dc.alts_mapping if not named else dict(zip(three["new"].values, three.coords["altnames"].values)),
          {c + 1: m for c, m in zip(codes, names)}, "names given later")
    same_cases(ds)
    # another table merged in
    ids2 = spec["ids"][spec["other"]:] + [200, 201][:spec["other"]]
    y = {c: k * 1.5 for k, c in enumerate(ids2)}
    right = Dataset.construct.from_idco(pd.DataFrame({"y": list(y.values())}, index=pd.Index(ids2, name=spec["idname"])))
    m = merge([ds, right], join=spec["join"], caseid=dim)
    kept = {"outer": set(spec["ids"]) | set(ids2), "inner": set(spec["ids"]) & set(ids2), "left": set(spec["ids"])}[spec["join"]]
    equal(m.dc.CASEID, dim, "case dimension of the merged data")
    equal(set(m.dc.caseids()), kept, "merged cases")
    for c in kept:
        g = m.sel({dim: c})
        require(same(g["y"].item(), y.get(c, float("nan"))), f"merged y of case {c}")
        require(same(g["x"].item(), spec["x"][spec["ids"].index(c)] if c in spec["ids"] else float("nan")), f"merged x of case {c}")
    # counts of values
    vc = ds["s"].value_counts()
    equal({k: int(v) for k, v in zip(vc["index"].values, vc.values)}, {k: spec["s"].count(k) for k in set(spec["s"])}, "counts of values")
    # stored and read again
    import xarray as xr
    p = os.path.join(ctx.scratch, f"a{os.getpid()}.zarr")
    ds["x"].to_zarr(p, mode="w")
    back = xr.DataArray.from_zarr(p)
    require(all(map(same, back.values, spec["x"])) and list(back[dim].values) == spec["ids"], "array stored and read again")


@st.composite
def dissolve_case(draw):
    n, J = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    k = draw(st.integers(1, 4))
    vs = {}
    for v in range(k):
        kind = draw(st.sampled_from(["any", "by case", "by alternative", "constant", "text", "case only"]))
        b = draw(st.binary(min_size=n * J, max_size=n * J))
        vs[f"v{v}"] = [kind, draw(st.sampled_from(["int", "float", "bool"])),
                       [[{"any": b[c * J + a], "by case": b[c * J], "by alternative": b[a], "constant": b[0],
                          "text": b[c * J + a], "case only": b[c * J]}[kind] % 4 for a in range(J)] for c in range(n)]]
    return {"n": n, "J": J, "vars": vs, "swap": draw(st.booleans()), "inplace": draw(st.booleans()),
            "dim": draw(st.sampled_from([None, "aid", "cid"]))}


@check("P15", dissolve_case(), quick=300)
def dissolve(spec, ctx):
    import xarray as xr
    n, J = spec["n"], spec["J"]
    ds = xr.Dataset(coords={"cid": np.arange(n) + 5, "aid": np.arange(J) + 1})
    ds.attrs.update(_caseid_="cid", _altid_="aid")
    dims = ("aid", "cid") if spec["swap"] else ("cid", "aid")
    vals = {}
    for k, (kind, dt, v) in spec["vars"].items():
        a = np.array([["abcd"[x] for x in r] for r in v]) if kind == "text" else np.array(v).astype(dt)
        vals[k] = a
        if kind == "case only":
            ds[k] = ("cid", a[:, 0])
        else:
            ds[k] = (dims, a.T if spec["swap"] else a)
    orig = ds.copy(deep=True)
    dim = spec["dim"] or "aid"
    out = ds.dc.dissolve_zero_variance(**({"dim": spec["dim"]} if spec["dim"] else {}), inplace=spec["inplace"])
    if spec["inplace"]:
        ctx.label("in place")
        out = ds
    else:
        require(ds.identical(orig), "the source is changed")
    ctx.nontrivial(n > 1 and J > 1)
    ctx.label("along " + dim)
    equal(list(out["aid"].values), list(range(1, J + 1)), "alternatives")
    equal(list(out["cid"].values), list(range(5, 5 + n)), "cases")
    for k, (kind, dt, v) in spec["vars"].items():
        if kind == "text" or (kind == "case only" and dim == "aid"):
            require(out[k].identical(orig[k]), k + " is changed")
            continue
        a = vals[k]
        lines = a if dim == "aid" else a.T
        flat = all(len(set(r.tolist())) == 1 for r in lines) if kind != "case only" else len(set(a[:, 0].tolist())) == 1
        equal(dim in out[k].dims, not flat, f"{k} keeps the dimension")
        if kind == "case only":
            close(out[k].values if not flat else np.full(n, out[k].item()), a[:, 0], what=k)
        else:
            got = out[k].broadcast_like(xr.DataArray(np.zeros([n, J]), dims=("cid", "aid"))).transpose("cid", "aid").values
            close(got, a, what=k)
