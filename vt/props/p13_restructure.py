"""Splitting, filtering, rescaling and extracting data keep what belongs to each case."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close
from vt.props.p12_dataframes import Truth, build, build_spec, content, verify, note, by_name


@st.composite
def held(draw):
    s = draw(build_spec())
    s["crack"] = False
    return s


def start(spec, ctx):
    r = build(spec, ctx)
    if r is None:
        ctx.label("left out")
        return None
    d, tr, layout, parts, ca_cols, co_cols, _ = r
    note(spec["t"], tr, ctx)
    return d, tr, layout, parts, ca_cols, co_cols


def content_of(d, tr, parts, ca_cols, co_cols):
    """The part d has the content of tr, in whichever layout; alternatives may be known that no case has."""
    equal(list(d.alternative_codes()), tr.alts, "alternative codes")
    layout = "ca" if d.data_ca is not None else "ce" if d.data_ce is not None else None
    if layout == "ca":
        require(tr.exists.all(), "rows appear that were not there")
    verify(d, tr, layout, parts, ca_cols, co_cols)


def split_sizes(n, shares):
    cum = np.cumsum(np.array(shares) / np.sum(shares))
    return cum * n


@st.composite
def split_spec(draw):
    s = draw(held())
    n = len(s["t"]["ids"])
    how = draw(st.sampled_from(["simple", "shuffle", "copy"]))
    if draw(st.booleans()):
        parts = draw(st.integers(2, max(2, n)))
    else:
        parts = draw(st.lists(st.sampled_from([1, 2, 3, 0.5, 20, 80]), min_size=2, max_size=3))
    return {"d": s, "how": how, "parts": parts, "scale": draw(st.sampled_from([None, None, 2.0, 0.3, "auto"])),
            "drop": draw(st.booleans()), "npseed": draw(st.integers(0, 99))}


@check("P13", split_spec(), quick=450)
def split(spec, ctx):
    r = start(spec["d"], ctx)
    if r is None:
        return
    d, tr, layout, parts, ca_cols, co_cols = r
    if layout == "ce" and spec["drop"] and tr.n > 2:
        # a table from which some cases were taken out before, its index still knows them
        from larch import DataFrames
        sel = [k for k in range(tr.n) if k != tr.n // 2]
        keep = [tr.ids[k] for k in sel]
        ctx.label("cases taken out before")
        d = DataFrames(ce=d.data_ce[d.data_ce.index.get_level_values(0).isin(keep)], alt_codes=list(d.alternative_codes()),
                       co=None if d.data_co is None else d.data_co.loc[keep],
                       ch=None if d.data_ch is None else d.data_ch.loc[keep],
                       av=None if d.data_av is None else d.data_av.loc[keep],
                       wt=None if d.data_wt is None else d.data_wt.loc[keep])
        tr = tr.take(sel)
    shares = [1.0] * spec["parts"] if isinstance(spec["parts"], int) else spec["parts"]
    edge = split_sizes(tr.n, shares)
    if (np.diff(np.ceil(np.concatenate([[0], edge - 1e-9]))) < 1).any():
        return ctx.label("a part would be empty")
    if spec["scale"] and "wt" in parts:
        d.autoscale_weights() if spec["scale"] == "auto" and d.data_ch is not None else d.scale_weights(
            1.5 if spec["scale"] == "auto" else spec["scale"]) if d.data_ch is not None else None
        if d.data_ch is not None:
            ctx.label("weights scaled before")
    extracted = d.data_ch is not None and spec["scale"] and "wt" in parts
    np.random.seed(spec["npseed"])
    got = d.split(spec["parts"], method=spec["how"])
    ctx.label("split " + spec["how"])
    equal(len(got), len(shares), "number of parts")
    seen = []
    for k, g in enumerate(got):
        ids = list(g.caseindex)
        want = edge[k] - (edge[k - 1] if k else 0)
        require(abs(len(ids) - want) < 1 + 1e-6, "part", k, "has", len(ids), "cases where its share is", want)
        u = tr.take([tr.ids.index(i) for i in ids])
        check_parts = set(parts)
        if extracted:
            check_parts -= {"wt", "ch"}
            w = g.data_wt.values.reshape(-1, 1) * g.weight_normalization
            close(w * g.data_ch.values, u.wt[:, None] * u.ch, 1e-6, 1e-9, "weights times choices of a part")
        content_of(g, u, check_parts, ca_cols, co_cols)
        if spec["how"] != "shuffle":
            equal(ids, tr.ids[len(seen):len(seen) + len(ids)], "cases of a part without shuffling")
        seen += ids
    equal(sorted(seen), tr.ids, "cases of all parts together")


@st.composite
def select_spec(draw):
    s = draw(held())
    s["co"] = True
    return {"d": s, "var": draw(st.sampled_from(["y", "inc"])), "op": draw(st.sampled_from([">", "<=", "!=", "=="])),
            "pick": draw(st.integers(0, 9)), "and": draw(st.booleans()), "scale": draw(st.sampled_from([None, 2.0])),
            "nan": draw(st.integers(0, 3)) == 0}


@check("P13", select_spec(), quick=350)
def selector(spec, ctx):
    r = start(spec["d"], ctx)
    if r is None:
        return
    d, tr, layout, parts, ca_cols, co_cols = r
    if "co" not in parts:
        return ctx.label("left out")
    v = tr.co[spec["var"]]
    c = v[spec["pick"] % tr.n]
    f = {">": v > c, "<=": v <= c, "!=": v != c, "==": v == c}[spec["op"]]
    expr = f"{spec['var']}{spec['op']}{c}"
    if spec["and"]:
        expr, f = f"({expr})&(inc<4)", f & (tr.co["inc"] < 4)
    if not f.any():
        return ctx.label("nothing selected")
    if spec["scale"] and "wt" in parts and d.data_ch is not None:
        one = np.allclose(tr.ch.sum(1), 1)
        d.scale_weights(2.0)
        if not one:
            parts = parts - {"wt", "ch"}
    g = d.selector_co(expr)
    ctx.label("some left out" if not f.all() else "all selected")
    content_of(g, tr.take(np.flatnonzero(f)), parts, ca_cols, co_cols)
    content_of(d, tr, parts, ca_cols, co_cols)


@st.composite
def weights_spec(draw):
    s = draw(held())
    s["ch"] = s["ch"] or "wide"
    steps = draw(st.lists(st.sampled_from(["auto", "un", 2.0, 0.25, 7.0, 1.0]), min_size=1, max_size=4))
    return {"d": s, "steps": steps}


@check("P13", weights_spec(), quick=350)
def weights(spec, ctx):
    r = start(spec["d"], ctx)
    if r is None or "ch" not in r[3]:
        return ctx.label("left out")
    d, tr, layout, parts, ca_cols, co_cols = r
    w0 = tr.wt if "wt" in parts else np.ones(tr.n)
    mass = w0[:, None] * tr.ch
    if not mass.any():
        return ctx.label("nothing chosen")
    old_ch, old_wt = d.data_ch.copy(), None if d.data_wt is None else d.data_wt.copy()
    src_ch, src_wt = d.data_ch, d.data_wt
    extracted = False
    for s in spec["steps"]:
        if s == "un":
            if d.data_wt is None:
                continue
            d.unscale_weights()
            close(d.weight_normalization, 1, 1e-9, 1e-9, "normalization after unscaling")
        elif s == "auto":
            d.autoscale_weights()
            if d.data_wt is not None:
                close(d.data_wt.values.mean(), 1, 1e-6, 1e-9, "mean weight after autoscale")
            extracted = True
        else:
            before = d.weight_normalization
            d.scale_weights(s)
            close(d.weight_normalization, before * s, 1e-9, 0, "normalization after scaling")
            extracted = True
        w = np.ones(tr.n) if d.data_wt is None else d.data_wt.values.reshape(-1)
        close(w[:, None] * d.data_ch.values * d.weight_normalization, mass, 1e-6, 1e-9, f"weights times choices after {s}")
        close(d.array_wt().reshape(-1) if d.data_wt is not None else 1, d.data_wt.values.reshape(-1) if d.data_wt is not None else 1, 0, 0, "array_wt")
        if extracted:
            tot = d.data_ch.values.sum(1)
            require(((np.abs(tot - 1) < 1e-6) | (tot == 0)).all(), "choices do not sum to one after weights are scaled", tot)
    require(src_ch.equals(old_ch) and (src_wt is None or src_wt.equals(old_wt)), "the table that weights were read from is changed")
    content_of(d, tr, parts - {"ch", "wt"}, ca_cols, co_cols)


@st.composite
def standard_spec(draw):
    s, u = draw(held()), draw(held())
    for k in ("as", "co", "ch", "wt"):
        u[k] = s[k]
    return {"d": s, "u": u, "mean": draw(st.integers(0, 3)) > 0, "std": draw(st.integers(0, 3)) > 0,
            "unit": draw(st.booleans())}


def moments(v, mask):
    a = v[mask]
    m, s = a.mean(), a.std()
    s = 1 if s < 1e-12 else s
    if {a.min(), a.max()} <= {0, 1}:
        return 0.0, 1.0
    return m, s


@check("P13", standard_spec(), quick=300)
def standardize(spec, ctx):
    if spec["unit"]:
        for s in (spec["d"], spec["u"]):
            s["t"]["ca"]["ab"] = [float(v > 1) for v in s["t"]["ca"]["ab"]]
            s["t"]["co"]["inc"] = [float(v > 1) for v in s["t"]["co"]["inc"]]
    r = start(spec["d"], ctx)
    if r is None:
        return
    d, tr, layout, parts, ca_cols, co_cols = r
    if "av" not in parts:
        return ctx.label("no availability")
    mask = (tr.av > 0) & tr.exists
    if not mask.any():
        return ctx.label("nothing available")
    mo = {k: moments(tr.ca[k], mask) for k in ca_cols} if layout else {}
    mc = {k: moments(tr.co[k], np.ones(tr.n, bool)) for k in co_cols} if "co" in parts else {}
    adj = lambda v, p: (v - (p[0] if spec["mean"] else 0)) / (p[1] if spec["std"] else 1)

    def expect(t):
        t.ca = {k: np.where(t.exists, adj(v, mo[k]), 0) if k in mo else v for k, v in t.ca.items()}
        t.co = {k: adj(v, mc[k]) if k in mc else v for k, v in t.co.items()}
        return t
    d.standardize(with_mean=spec["mean"], with_std=spec["std"])
    content_of(d, expect(tr), parts, ca_cols, co_cols)
    ctx.label("standardized " + str(layout))
    r = build(spec["u"], ctx)
    if r is None:
        return
    e, ur, ulay, uparts, uca, uco, _ = r
    if ulay != layout or uca != ca_cols or uco != co_cols or ("co" in parts) != ("co" in uparts):
        return
    e.standardize(same_as=d)
    ctx.label("same as another")
    content_of(e, expect(ur), uparts, uca, uco)


@st.composite
def request_spec(draw):
    s = draw(held())
    return {"d": s, "ca": draw(st.sampled_from([None, ["zt"], ["ab", "zt"], ["zt*2", "ab+zt"], ["zt*inc", "ab"]])),
            "co": draw(st.sampled_from([None, ["y"], ["inc", "y"], ["inc*inc", "y>0"]])),
            "ch": draw(st.sampled_from([None, "any", "ca", "co", "code"])),
            "av": draw(st.sampled_from([None, "any", "ca", "co"])),
            "wt": draw(st.sampled_from([None, "co"])),
            "explicit": draw(st.booleans()), "float32": draw(st.integers(0, 3)) == 0}


VALUES_CA = {"zt": lambda t: t.ca["zt"], "ab": lambda t: t.ca["ab"], "zt*2": lambda t: t.ca["zt"] * 2,
             "ab+zt": lambda t: t.ca["ab"] + t.ca["zt"], "zt*inc": lambda t: t.ca["zt"] * t.co["inc"][:, None]}
VALUES_CO = {"y": lambda t: t.co["y"], "inc": lambda t: t.co["inc"], "inc*inc": lambda t: t.co["inc"] ** 2,
             "y>0": lambda t: (t.co["y"] > 0) * 1.0}


@check("P13", request_spec(), quick=400)
def request(spec, ctx):
    r = start(spec["d"], ctx)
    if r is None:
        return
    d, tr, layout, parts, ca_cols, co_cols = r
    import copy
    want = copy.copy(tr)
    req, out = {}, set()
    ca_names, co_names = [], []
    if layout and spec["ca"] and ("co" in parts or "zt*inc" not in spec["ca"]):
        req["ca"] = ca_names = list(spec["ca"])
        want.ca = {k: np.where(tr.exists, VALUES_CA[k](tr), 0) for k in ca_names}
    if "co" in parts and spec["co"]:
        req["co"] = co_names = list(spec["co"])
        want.co = {k: VALUES_CO[k](tr) for k in co_names}
        out.add("co")
    if not ca_names and not co_names:
        return ctx.label("nothing asked for")
    by_row = ca_names or "co" in out
    ch = spec["ch"]
    if ch == "any" and "ch" in parts:
        req["choice_any"] = True
        out.add("ch")
    elif ch == "ca" and layout:
        req["choice_ca"] = "zt*zt"
        want.ch = np.where(tr.exists, tr.ca["zt"] ** 2, 0)
        out.add("ch")
    elif ch == "co" and "co" in parts:
        req["choice_co"] = {a: ["inc", "y>1", "y*y"][k % 3] for k, a in reversed(list(enumerate(tr.alts)))}
        f = [tr.co["inc"], tr.co["y"] > 1, tr.co["y"] ** 2]
        want.ch = np.stack([f[k % 3] for k in range(tr.J)], 1).astype(float)
        out.add("ch")
    elif ch == "code" and "code" in co_cols:
        req["choice_co_code"] = "code"
        out.add("ch")
    elif "ch" in parts and not spec["explicit"]:
        out.add("ch")
    else:
        ch = "none"
    av = spec["av"]
    if av == "any" and "av" in parts:
        req["avail_any"] = True
        out.add("av")
    elif av == "ca" and layout:
        req["avail_ca"] = "zt>0"
        want.av = (tr.exists & (tr.ca["zt"] > 0)).astype(int)
        out.add("av")
    elif av == "co" and "co" in parts:
        req["avail_co"] = {a: ["inc>0", "1", "y<=1"][k % 3] for k, a in reversed(list(enumerate(tr.alts)))}
        f = [tr.co["inc"] > 0, np.ones(tr.n), tr.co["y"] <= 1]
        want.av = np.stack([f[k % 3] for k in range(tr.J)], 1).astype(int)
        out.add("av")
    elif "av" in parts and not spec["explicit"]:
        out.add("av")
    elif layout == "ce" and ca_names and not tr.exists.all():
        want.av = tr.exists.astype(int)
        out.add("av")
    if spec["wt"] and "co" in parts:
        req["weight_co"] = "y*y+1"
        want.wt = tr.co["y"] ** 2 + 1
        out.add("wt")
    elif "wt" in parts and not spec["explicit"]:
        out.add("wt")
    from larch.util import Dict
    dtype = np.float32 if spec["float32"] else np.float64
    g = d.make_dataframes(Dict(req), explicit=spec["explicit"], log_warnings=False, float_dtype=dtype)
    ctx.label("choice " + str(ch), "explicit" if spec["explicit"] else "with what there is",
              "availability " + str(av))
    equal(list(g.alternative_codes()), tr.alts, "alternative codes")
    lay = "ca" if g.data_ca is not None else "ce" if g.data_ce is not None else None
    require(lay == (layout if ca_names else None) or (ca_names and lay == "ca" and tr.exists.all()), "layout of what was asked for:", lay)
    verify(g, want, lay, out, ca_names, co_names)
    for p in ("ch", "wt", "av", "co"):
        if p not in out:
            require(getattr(g, "data_" + p) is None, "data_" + p, "is given though it is neither asked for nor to be added")
