"""A DataFrames object holds the values of the tables it was made from, in every form it hands them out."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close, rejects


@st.composite
def content(draw, max_cases=6, max_alts=5, weights=True, dense=None):
    """Cases, alternatives, which rows exist, and a number for each variable."""
    n = draw(st.sampled_from([k for k in (3, 4, 2, 5, 6, 1) if k <= max_cases]))
    J = draw(st.sampled_from([k for k in (3, 2, 4, 5, 1) if k <= max_alts]))
    ids = draw(st.lists(st.integers(0, 90), min_size=n, max_size=n, unique=True))
    alts = sorted(draw(st.lists(st.integers(1, 30), min_size=J, max_size=J, unique=True)))
    b = draw(st.binary(min_size=6 * n * J, max_size=6 * n * J))
    full = draw(st.booleans()) if dense is None else dense
    rows = []
    for c in range(n):
        rows += [[c, a] for a in range(J) if full or b[c * J + a] % 3] or [[c, b[c * J] % J]]
    order = draw(st.integers(0, 2))
    if order == 1:
        rows = list(draw(st.permutations(rows)))
    elif order == 2:
        rows.sort(key=lambda r: (ids[r[0]], r[1]))
    at = lambda k, c, a: b[k * n * J + c * J + a]
    ca = {k: [at(i + 1, c, a) % 33 / 4 - 2 for c, a in rows] for i, k in enumerate(["zt", "ab"])}
    co = {k: [at(i + 3, c, 0) % 17 / 2 - 3 for c in range(n)] for i, k in enumerate(["y", "inc"])}
    per = {}
    for r, (c, a) in enumerate(rows):
        per.setdefault(c, []).append(r)
    ch = [0.0] * len(rows)
    kind = draw(st.sampled_from(["one", "one", "none", "many"]))
    for c, rs in per.items():
        z = at(5, c, 0)
        if kind == "one" or (kind == "none" and z % 4) or (kind == "many" and z % 3 == 0):
            ch[rs[z % len(rs)]] = 1.0
        elif kind == "many":
            for r in rs:
                ch[r] = at(5, c, rows[r][1]) % 5 / 2
    av = [1 if at(4, c, a) % 4 or ch[r] else 0 for r, (c, a) in enumerate(rows)]
    wt = [at(3, c, J - 1) % 8 / 4 + 0.25 for c in range(n)] if weights else None
    return {"ids": ids, "alts": alts, "rows": rows, "ca": ca, "co": co, "ch": ch, "av": av, "wt": wt,
            "order": draw(st.permutations(range(n)))}


class Truth:
    """The content, by case id (in order) and alternative code."""
    def __init__(self, t):
        self.ids, self.alts = sorted(t["ids"]), list(t["alts"])
        n, J = len(self.ids), len(self.alts)
        pos = {c: self.ids.index(i) for c, i in enumerate(t["ids"])}
        self.exists = np.zeros((n, J), bool)
        self.ca = {k: np.zeros((n, J)) for k in t["ca"]}
        self.ch, self.av = np.zeros((n, J)), np.zeros((n, J), int)
        for r, (c, a) in enumerate(t["rows"]):
            p = pos[c], a
            self.exists[p] = True
            for k in t["ca"]:
                self.ca[k][p] = t["ca"][k][r]
            self.ch[p], self.av[p] = t["ch"][r], t["av"][r]
        self.co = {k: np.zeros(n) for k in t["co"]}
        self.wt = np.zeros(n)
        for c, p in pos.items():
            for k in t["co"]:
                self.co[k][p] = t["co"][k][c]
            self.wt[p] = t["wt"][c]
        self.n, self.J = n, J

    def take(self, sel):
        """The content of some cases only, in the order given."""
        import copy
        u = copy.copy(self)
        sel = np.asarray(sel)
        u.ids = [self.ids[s] for s in sel]
        u.exists, u.ch, u.av, u.wt = self.exists[sel], self.ch[sel], self.av[sel], self.wt[sel]
        u.ca = {k: v[sel] for k, v in self.ca.items()}
        u.co = {k: v[sel] for k, v in self.co.items()}
        u.n = len(sel)
        return u


def tables(t, extra=(), names=("cid", "aid")):
    """(ca/ce table, co table) as a user would have them."""
    tup = [(t["ids"][c], t["alts"][a]) for c, a in t["rows"]]
    df = pd.DataFrame({k: np.array(v) for k, v in t["ca"].items()},
                      index=pd.MultiIndex.from_tuples(tup, names=list(names)))
    if "ch" in extra:
        df["chosen"] = np.array(t["ch"])
    if "wt" in extra:
        df["wgt"] = np.array([t["wt"][c] for c, _ in t["rows"]])
    if "co" in extra:
        for k, v in t["co"].items():
            df[k] = np.array([v[c] for c, _ in t["rows"]])
    o = t["order"]
    co = pd.DataFrame({k: np.array(v)[o] for k, v in t["co"].items()},
                      index=pd.Index(np.array(t["ids"])[o], name=names[0]))
    return df, co


def long_of(tr, values, mask, name):
    """Series over the (case, alternative) pairs in mask."""
    k = np.argwhere(mask)
    ix = pd.MultiIndex.from_arrays([np.array(tr.ids)[k[:, 0]], np.array(tr.alts)[k[:, 1]]])
    return pd.Series(values[mask], index=ix, name=name)


def same_table(got, want, index, columns, what):
    """got is a DataFrame; index and columns in this order."""
    require(got is not None, what, "is missing")
    equal(list(got.columns), list(columns), what + ": columns")
    equal([tuple(i) if isinstance(i, tuple) else i for i in got.index.tolist()], list(index), what + ": index")
    close(np.asarray(got.values, dtype=float), np.asarray(want, dtype=float).reshape(got.shape), 1e-7, 1e-12, what)


def by_name(got, columns):
    equal(sorted(map(str, got.columns)), sorted(map(str, columns)), "columns")
    return got[list(columns)]


def verify(d, tr, layout, parts, ca=None, co=None):
    """Everything the object d holds is what the truth has.  layout: 'ca', 'ce' or None."""
    ca = list(tr.ca) if ca is None else ca
    co = list(tr.co) if co is None else co
    equal(d.n_cases, tr.n, "n_cases")
    equal(d.n_alts, tr.J, "n_alts")
    equal(list(d.alternative_codes()), tr.alts, "alternative codes")
    equal(list(d.caseindex), tr.ids, "case index")
    if layout == "ca":
        require(d.data_ce is None, "idca and idce data at the same time")
        ix = [(i, a) for i in tr.ids for a in tr.alts]
        same_table(by_name(d.data_ca, ca), np.stack([tr.ca[k] for k in ca], -1).reshape(len(ix), -1), ix, ca, "data_ca")
        close(d.array_ca()[:, :, [list(d.data_ca.columns).index(k) for k in ca]],
              np.stack([tr.ca[k] for k in ca], -1), 1e-7, 1e-12, "array_ca")
    elif layout == "ce":
        require(d.data_ca is None, "idca and idce data at the same time")
        k = np.argwhere(tr.exists)
        ix = [(tr.ids[c], tr.alts[a]) for c, a in k]
        same_table(by_name(d.data_ce, ca), np.stack([tr.ca[v][tr.exists] for v in ca], -1), ix, ca, "data_ce")
        rm = np.asarray(d.array_ce_reversemap)
        equal(rm.shape, (tr.n, tr.J), "shape of the map of rows")
        want = np.full((tr.n, tr.J), -1)
        want[tr.exists] = np.arange(len(k))
        equal(rm, want, "map of rows")
        equal(np.asarray(d.array_ce_caseindexes), k[:, 0], "case of each row")
        equal(np.asarray(d.array_ce_altindexes), k[:, 1], "alternative of each row")
    if "co" in parts:
        same_table(by_name(d.data_co, co), np.stack([tr.co[k] for k in co], -1), tr.ids, co, "data_co")
    if "ch" in parts:
        same_table(d.data_ch, tr.ch, tr.ids, tr.alts, "data_ch")
        close(d.array_ch(), tr.ch, 1e-7, 1e-12, "array_ch")
    if "av" in parts:
        same_table(d.data_av, tr.av, tr.ids, tr.alts, "data_av")
        close(d.array_av(), tr.av, 0, 0, "array_av")
    if "wt" in parts:
        close(np.asarray(d.data_wt.values).reshape(-1) * d.weight_normalization, tr.wt, 1e-6, 1e-9, "data_wt")
        equal(list(d.data_wt.index), tr.ids, "data_wt: index")
        close(d.total_weight(), tr.wt.sum(), 1e-5, 1e-9, "total weight")


def note(t, tr, ctx):
    ctx.label("all rows" if tr.exists.all() else "missing rows",
              "rows in order" if [(t["ids"][c], a) for c, a in t["rows"]] == sorted((t["ids"][c], a) for c, a in t["rows"])
              else "rows in another order")
    ctx.nontrivial(tr.n >= 2 and tr.J >= 2)


@st.composite
def build_spec(draw):
    return {"t": draw(content()),
            "as": draw(st.sampled_from(["ca", "ce", "position", "none", "idce"])),
            "co": draw(st.booleans()),
            "ch": draw(st.sampled_from([None, "wide", "long", "name", "code", "rows"])),
            "av": draw(st.sampled_from([None, "wide", "long", "true", "formula", "rows"])),
            "wt": draw(st.sampled_from([None, "frame", "series", "co name", "ca name"])),
            "crack": draw(st.integers(0, 3)) == 0, "comp": draw(st.booleans()), "sd": draw(st.integers(0, 9999)),
            "names": draw(st.booleans())}


def build(spec, ctx):
    """Make the DataFrames of a spec; returns it with the truth, layout and parts, or None if the spec is not a valid one."""
    from larch import DataFrames
    t = spec["t"]
    tr = Truth(t)
    form = spec["as"]
    has_co = spec["co"]
    rng = np.random.default_rng(spec["sd"])
    extra = []
    kw = {}
    parts = set()
    if form == "none":
        has_co = True
        tr.exists[:] = True
    used = sorted({a for _, a in t["rows"]})
    if form != "none" and len(used) < tr.J:  # alternatives nobody has are not known from the table
        for f in ("ch", "av", "exists"):
            setattr(tr, f, getattr(tr, f)[:, used])
        tr.ca = {k: v[:, used] for k, v in tr.ca.items()}
        tr.alts = [tr.alts[u] for u in used]
        tr.J = len(used)
    ids, alts = np.array(tr.ids), np.array(tr.alts)
    perm = rng.permutation(tr.n)
    wide = lambda v, dt: pd.DataFrame(v[perm].astype(dt), index=ids[perm], columns=alts)
    ch, av, wt = spec["ch"], spec["av"], spec["wt"]
    if form == "idce":
        ch, av, wt = (ch and "name"), None, None
    # choice
    single = (tr.ch.sum(1) == 1).all() and ((tr.ch == 0) | (tr.ch == 1)).all()
    if ch == "wide":
        kw["ch"] = wide(tr.ch, float)
    elif ch == "long":
        m = [tr.exists, np.ones_like(tr.exists), tr.ch > 0][rng.integers(3)]
        m = m if m.any(1).all() else tr.exists
        kw["ch"] = long_of(tr, tr.ch, m, "chosen").iloc[rng.permutation(int(m.sum()))]
    elif ch == "codes" and single and has_co:
        k = [tr.alts[j] for j in tr.ch.argmax(1)]
        kw["ch"] = pd.Series(np.array(k)[perm], index=ids[perm], name="chosen")
    elif ch == "name" and form != "none":
        extra.append("ch")
        kw["choice" if form == "idce" else "ch"] = "chosen"
    elif ch == "code" and has_co and single:
        kw["ch"] = "code"
    elif ch == "rows" and form == "ce":
        kw["ch_as_ce"] = np.array(t["ch"])
    else:
        ch = None
    # weights
    if wt == "frame":
        kw["wt"] = pd.DataFrame({"w": tr.wt[perm]}, index=ids[perm])
    elif wt == "series":
        kw["wt"] = pd.Series(tr.wt[perm], index=ids[perm], name="w")
    elif wt == "co name" and has_co:
        kw["wt"] = "wgt"
    elif wt == "ca name" and form in ("ca", "ce", "position"):
        extra.append("wt")
        kw["wt"] = "wgt"
    else:
        wt = None
    crack = spec["crack"] and not has_co and form != "none"
    if crack:
        extra.append("co")
        kw["crack"] = True
    df, co = tables(t, extra)
    if ch == "code":
        co["code"] = [int(alts[np.argmax(tr.ch[tr.ids.index(i)])]) for i in co.index]
    if wt == "co name":
        co["wgt"] = [tr.wt[tr.ids.index(i)] for i in co.index]
    before_df, before_co = df.copy(deep=True), co.copy(deep=True)
    in_order = [(t["ids"][c], a) for c, a in t["rows"]] == sorted((t["ids"][c], a) for c, a in t["rows"])
    layout = None if form == "none" else "ca" if tr.exists.all() and in_order else "ce"
    # availability
    if av == "wide":
        kw["av"] = wide(tr.av, np.int8)
    elif av == "long":
        m = tr.exists if rng.integers(2) else np.ones_like(tr.exists)
        kw["av"] = long_of(tr, tr.av, m, "avail").iloc[rng.permutation(int(m.sum()))]
        if not m.any(0).all():
            return None
    elif av == "true":
        kw["av"] = rng.choice([True, 1, 1.0])
        if not isinstance(kw["av"], (bool, int, float)):
            kw["av"] = kw["av"].item()
        tr.av = np.ones((tr.n, tr.J), int)
    elif av == "formula" and has_co:
        kw["av"] = {a: ("inc>0" if k % 3 == 0 else "(y<1)&(inc>-2)" if k % 3 == 1 else "1") for k, a in enumerate(tr.alts)}
        f = [tr.co["inc"] > 0, (tr.co["y"] < 1) & (tr.co["inc"] > -2), np.ones(tr.n)]
        tr.av = np.stack([f[k % 3] for k in range(tr.J)], 1).astype(int)
    elif av == "rows" and form == "ce":
        kw["av_as_ce"] = np.array(t["av"])
    else:
        av = None
        tr.av = tr.exists.astype(int)
    if form == "none":
        kw["alt_codes"] = list(tr.alts)
        if ch in ("name", "rows"):
            return None
    if has_co:
        kw["co"] = co
    if spec["names"]:
        if form != "idce":
            kw["alt_names"] = [f"alt{a}" for a in tr.alts]
    if spec["comp"] and form != "idce":
        kw["computational"] = True
    with np.errstate(all="ignore"):
        if form == "idce":
            kw.pop("co", None)
            has_co = False
            kw.pop("wt", None)
            wt = None
            if crack:
                kw["crack"] = True
            kw["autoscale_weights"] = False
            d = DataFrames.from_idce(df, **kw)
        elif form == "position":
            d = DataFrames(df, **kw)
        elif form == "none":
            d = DataFrames(**kw)
        else:
            d = DataFrames(**{form: df}, **kw)
    require(df.equals(before_df) and df.index.equals(before_df.index), "the caller's table of alternatives is changed")
    require(co.equals(before_co) and co.index.equals(before_co.index), "the caller's table of cases is changed")
    if ch:
        parts.add("ch")
    if wt:
        parts.add("wt")
    if av or layout == "ce":
        parts.add("av")
    ca_cols = list(tr.ca)
    if form not in ("none",):
        for e, col in (("ch", "chosen"), ("wt", "wgt")):
            if e in extra and form != "idce":
                ca_cols = ca_cols + [col]
                tr.ca[col] = tr.ch if e == "ch" else np.where(tr.exists, tr.wt[:, None], 0)
    co_cols = list(tr.co)
    if has_co:
        parts.add("co")
        if ch == "code":
            co_cols.append("code")
            tr.co["code"] = np.array([alts[k] for k in tr.ch.argmax(1)])
        if wt == "co name":
            co_cols.append("wgt")
            tr.co["wgt"] = tr.wt
    ctx.label(f"as {form}", f"layout {layout}", f"choice {ch}", f"availability {av}", f"weight {wt}")
    return d, tr, layout, parts, ca_cols, co_cols, crack


@check("P12", build_spec(), quick=700)
def construct(spec, ctx):
    r = build(spec, ctx)
    if r is None:
        return ctx.label("left out")
    d, tr, layout, parts, ca_cols, co_cols, crack = r
    note(spec["t"], tr, ctx)
    if crack:
        # each variable is found either by case or by alternative
        ctx.label("cracked")
        where = {}
        for k in list(tr.co) + ca_cols:
            by_case = d.data_co is not None and k in d.data_co.columns
            tab = d.data_ca if layout == "ca" else d.data_ce
            by_alt = tab is not None and k in tab.columns
            require(by_case != by_alt, "variable", k, "is found twice or not at all after cracking")
            src = tr.ca[k] if k in tr.ca else np.where(tr.exists, tr.co[k][:, None], 0)
            if by_case:
                equal(list(d.data_co.index), tr.ids, "cases after cracking")
                v = np.asarray(d.data_co[k], float)[:, None]
                close(np.where(tr.exists, v, 0), src, 1e-7, 1e-12, k + " by case after cracking")
            else:
                close(np.asarray(tab[k], float), src[tr.exists], 1e-7, 1e-12, k + " by alternative after cracking")
        verify(d, tr, None, parts - {"co"})
        return
    verify(d, tr, layout, parts, ca_cols, co_cols)
    if spec["names"] and spec["as"] != "idce":
        equal(d.alternatives, {a: f"alt{a}" for a in tr.alts}, "names of alternatives")
    else:
        equal(d.alternatives, {a: str(a) for a in tr.alts}, "names of alternatives")


@check("P12", build_spec(), quick=500)
def other_forms(spec, ctx):
    """The same content in the other forms that can be asked for."""
    r = build(dict(spec, crack=False), ctx)
    if r is None:
        return ctx.label("left out")
    d, tr, layout, parts, ca_cols, co_cols, _ = r
    note(spec["t"], tr, ctx)
    ids, alts = np.array(tr.ids), np.array(tr.alts)
    full = [(i, a) for i in tr.ids for a in tr.alts]

    def listed(mask):
        return [(tr.ids[c], tr.alts[a]) for c, a in np.argwhere(mask)]
    if layout == "ca" and "av" in parts:
        m = tr.av > 0
        got = by_name(d.data_ca_as_ce(), ca_cols)
        same_table(got, np.stack([tr.ca[k][m] for k in ca_cols], -1), listed(m), ca_cols, "data_ca_as_ce")
    if layout == "ce":
        got = by_name(d.data_ce_as_ca(), ca_cols)
        same_table(got, np.stack([tr.ca[k] for k in ca_cols], -1), full, ca_cols, "data_ce_as_ca")
    m = tr.exists if layout == "ce" else tr.av > 0 if layout == "ca" and "av" in parts else None
    if m is not None:
        if "ch" in parts:
            got = d.data_ch_as_ce()
            same_table(got, tr.ch[m], listed(m), ["choice"], "data_ch_as_ce")
        if "av" in parts:
            same_table(d.data_av_as_ce(), tr.av[m], listed(m), ["avail"], "data_av_as_ce")
        if "wt" in parts:
            same_table(d.data_wt_as_ce(), np.repeat(tr.wt[:, None], tr.J, 1)[m], listed(m), ["weight"], "data_wt_as_ce")
        if "co" in parts:
            got = by_name(d.data_co_as_ce(), co_cols)
            same_table(got, np.stack([np.repeat(tr.co[k][:, None], tr.J, 1)[m] for k in co_cols], -1), listed(m), co_cols,
                       "data_co_as_ce")
    if layout:
        m = tr.exists
        got = d.data_ca_combined()
        if "co" in parts and not (set(ca_cols) & set(co_cols)):
            got = by_name(got, ca_cols + co_cols).sort_index()
            same_table(got, np.stack([tr.ca[k][m] for k in ca_cols]
                                     + [np.repeat(tr.co[k][:, None], tr.J, 1)[m] for k in co_cols], -1),
                       listed(m), ca_cols + co_cols, "data_ca_combined")
        got = d.data_co_combined()
        equal(list(got.index), tr.ids, "cases of data_co_combined")
        for k in ca_cols:
            for j, a in enumerate(tr.alts):
                col = np.asarray(got[(k, a)], float)
                close(col[m[:, j]], tr.ca[k][m[:, j], j], 1e-7, 1e-12, f"data_co_combined {k, a}")
                require(np.isnan(col[~m[:, j]]).all(), "a value appears where there is none, in data_co_combined", k, a)
        if "co" in parts:
            for k in co_cols:
                close(np.asarray(got[(k, "*")], float), tr.co[k], 1e-7, 1e-12, f"data_co_combined {k}")
    if layout == "ce" and spec["sd"] % 3 == 0:
        d.data_ce_as_ca(promote="there")
        ctx.label("promoted")
        tr.ca["there"] = tr.exists.astype(float)
        tr.exists = np.ones_like(tr.exists)
        verify(d, tr, "ca", parts, ca_cols + ["there"], co_cols)
