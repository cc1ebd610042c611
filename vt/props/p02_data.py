"""Data expressions: columns computed from text equal a row by row evaluation of the same expression."""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close, rejects

INT = ["i", "j"]
FLT = ["x", "y"]
IDX = ["caseid", "altid"]
STR = "s"
WORDS = ["bus", "car", "b", ""]
FV = [0.0, 1.0, -1.0, 0.5, 2.0, -2.5, 7.0, 100.0, 1e-3, 3.0, 0.25, -0.125]
CONST = [0, 1, 2, 3, 10, 0.5, 2.5, 1e-3]
FUN1 = ["log", "exp", "log1p", "absolute", "fabs", "sqrt", "sin", "cos", "isfinite", "isnan", "nan_to_num"]
FUN2 = ["fmin", "fmax", "logaddexp"]


@st.composite
def number(draw, cols, depth):
    k = draw(st.integers(0, 15 if depth else 3))
    sub = lambda: draw(number(cols, depth - 1))
    if k <= 2:
        return ["col", draw(st.sampled_from(cols))]
    if k == 3:
        return ["num", draw(st.sampled_from(CONST))]
    if k <= 7:
        op, a, b = draw(st.sampled_from("+-*/")), sub(), sub()
        if op == "/" and b[0] != "col":  # neither the sign of a zero nor a constant over zero is specified
            b = ["bin", "+", ["fun", "fabs", b], ["num", draw(st.sampled_from(CONST[1:]))]]
        return ["bin", op, a, b]
    if k == 8:
        return ["pow", sub(), draw(st.sampled_from([2, 3, 1, 0]))]
    if k == 9:
        return ["neg", sub()]
    if k == 10:
        return ["fun", draw(st.sampled_from(FUN1[:8])), sub()]
    if k == 11:
        return ["fun2", draw(st.sampled_from(FUN2)), sub(), sub()]
    if k == 12:
        lo = draw(st.sampled_from([None, -1, 0, 0.5, 2]))
        hi = draw(st.sampled_from([None, 2, 3.5, 7]))
        return ["piece", ["col", draw(st.sampled_from(cols))], lo, hi]
    if k == 13:
        a, b = draw(st.permutations([-1, 0.5, 3]))[:2]
        return ["sigmoid", ["col", draw(st.sampled_from(cols))], a, b]
    return ["if", draw(truth(cols, depth - 1)), sub()]


@st.composite
def truth(draw, cols, depth):
    k = draw(st.integers(0, 9 if depth else 4))
    if k <= 2 or (k == 3 and "i" not in cols) or (k == 4 and IDX[0] not in cols):
        return ["cmp", draw(st.sampled_from(["<", "<=", "==", "!=", ">", ">="])),
                draw(number(cols, max(depth - 1, 0))), draw(number(cols, 0))]
    if k == 3:
        vals = draw(st.lists(st.integers(-2, 4), min_size=1, max_size=3))
        return ["in", draw(st.sampled_from(INT)), vals, draw(st.booleans())]
    if k == 4:
        if draw(st.booleans()):
            return ["word", draw(st.sampled_from(WORDS)), draw(st.booleans())]
        return ["words", draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=2)), draw(st.booleans())]
    if k <= 7:
        return ["&" if k % 2 else "|", draw(truth(cols, depth - 1)), draw(truth(cols, depth - 1))]
    if k == 8:
        e = draw(truth(cols, depth - 1))
        return ["~", e] if uses(e) else e
    return ["bool", draw(number(cols, depth - 1))]


def text(e):
    k = e[0]
    if k == "col":
        return e[1]
    if k == "num":
        return repr(e[1])
    if k == "bin":
        return f"({text(e[2])}{e[1]}{text(e[3])})"
    if k == "pow":
        return f"({text(e[1])})**{e[2]}"
    if k == "neg":
        return f"(-{text(e[1])})"
    if k == "fun":
        return f"{e[1]}({text(e[2])})"
    if k == "fun2":
        return f"{e[1]}({text(e[2])}, {text(e[3])})"
    if k == "piece":
        return f"piece({text(e[1])},{e[2]},{e[3]})"
    if k == "sigmoid":
        return f"hard_sigmoid({text(e[1])},{e[2]},{e[3]})"
    if k == "if":
        return f"(1*({text(e[1])})*{text(e[2])})"
    if k == "cmp":
        return f"({text(e[2])} {e[1]} {text(e[3])})"
    if k == "in":
        return f"({e[1]} {'not in' if e[3] else 'in'} {e[2]!r})"
    if k == "word":
        return f"(s {'!=' if e[2] else '=='} {e[1]!r})"
    if k == "words":
        return f"(s {'not in' if e[2] else 'in'} {e[1]!r})"
    if k in "&|":
        return f"({text(e[1])} {k} {text(e[2])})"
    if k == "~":
        return f"(~{text(e[1])})"
    if k == "bool":
        return f"boolean({text(e[1])})"
    raise AssertionError(k)


F = np.float64


def scalar(v):
    return np.array([v], dtype=np.int64 if isinstance(v, int) else F)


def value(e, row):
    """One row at a time (as a one element array, so that rounding is the same)."""
    k = e[0]
    if k == "col":
        v = row[e[1]]
        return v if isinstance(v, str) else scalar(v)
    if k == "num":
        return scalar(e[1])
    if k == "bin":
        a, b = value(e[2], row), value(e[3], row)
        return {"+": a + b, "-": a - b, "*": a * b}[e[1]] if e[1] != "/" else np.divide(a, b)
    if k == "pow":
        return value(e[1], row) ** e[2]
    if k == "neg":
        return -value(e[1], row)
    if k == "fun":
        a = value(e[2], row)
        return getattr(np, e[1])(a)
    if k == "fun2":
        a, b = value(e[2], row), value(e[3], row)
        if e[1] == "logaddexp":
            return np.logaddexp(a, b)
        if np.isnan(a) or np.isnan(b):
            return b if np.isnan(a) else a
        return min(a, b) if e[1] == "fmin" else max(a, b)
    if k == "piece":
        a, lo, hi = value(e[1], row), e[2], e[3]
        if np.isnan(a):
            return a
        if lo is not None and hi is not None:
            return scalar(hi - lo) if a > hi else scalar(0.0) if a < lo else a - lo
        if lo is not None:
            return max(a - lo, scalar(0.0))
        return a if hi is None or a < hi else scalar(hi)
    if k == "sigmoid":
        a, zero, one = value(e[1], row), e[2], e[3]
        if np.isnan(a):
            return a
        t = (a - zero) / (one - zero)
        return scalar(float(min(max(t.item(), 0.0), 1.0)))
    if k == "if":
        return np.int64(bool(value(e[1], row))) * value(e[2], row)
    if k == "cmp":
        a, b = value(e[2], row), value(e[3], row)
        return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}[e[1]]
    if k == "in":
        return (row[e[1]] in e[2]) != e[3]
    if k == "word":
        return (row["s"] == e[1]) != e[2]
    if k == "words":
        return (row["s"] in e[1]) != e[2]
    if k == "&":
        return bool(value(e[1], row)) and bool(value(e[2], row))
    if k == "|":
        return bool(value(e[1], row)) or bool(value(e[2], row))
    if k == "~":
        return not value(e[1], row)
    if k == "bool":
        return bool(value(e[1], row))
    raise AssertionError(k)


def uses(e):
    if isinstance(e, list):
        if e and e[0] == "col":
            return {e[1]}
        if e and e[0] == "in":
            return {e[1]}
        if e and e[0] in ("word", "words"):
            return {"s"}
        return set().union(*[uses(i) for i in e]) if e else set()
    return set()


def depth(e):
    return 1 + max([depth(i) for i in e if isinstance(i, list) and i and isinstance(i[0], str)] or [0])


@st.composite
def table(draw):
    n = draw(st.integers(1, 4))
    J = draw(st.integers(1, 3))
    N = n * J
    b = draw(st.binary(min_size=6 * N, max_size=6 * N))
    t = {"i": [b[r] % 7 - 2 for r in range(N)], "j": [b[N + r] % 4 for r in range(N)],
         "x": [FV[b[2 * N + r] % 12] for r in range(N)],
         "y": [FV[b[3 * N + r] % 12] if b[3 * N + r] < 245 else float("nan") for r in range(N)],
         "s": [WORDS[b[4 * N + r] % 4] for r in range(N)]}
    ids = draw(st.lists(st.integers(0, 50), min_size=n, max_size=n, unique=True))
    alts = draw(st.lists(st.integers(1, 9), min_size=J, max_size=J, unique=True))
    order = draw(st.permutations(list(t)))
    return {"cols": {k: t[k] for k in order}, "ids": ids, "alts": alts}


def frame(t):
    ix = pd.MultiIndex.from_product([t["ids"], t["alts"]], names=["caseid", "altid"])
    return pd.DataFrame({k: np.array(v, dtype=object if k == "s" else None) for k, v in t["cols"].items()}, index=ix)


def rows(t):
    out = []
    for r, (c, a) in enumerate((c, a) for c in t["ids"] for a in t["alts"]):
        d = {k: v[r] for k, v in t["cols"].items()}
        d.update(caseid=c, altid=a)
        out.append(d)
    return out


@st.composite
def expressions(draw):
    k = draw(st.integers(1, 4))
    out = []
    for _ in range(k):
        d = draw(st.integers(0, 3))
        if draw(st.integers(0, 3)) == 0:
            out.append(draw(truth(INT + FLT + IDX, d)))
        else:
            out.append(draw(number(INT + FLT + IDX, d)))
    return out


def expected(e, rs):
    with np.errstate(all="ignore"):
        return np.array([float(np.asarray(value(e, r)).item()) for r in rs])


@check("P02", st.fixed_dictionaries({"t": table(), "ex": expressions(), "map": st.booleans()}), quick=2000)
def columns(spec, ctx):
    from larch.util.dataframe import columnize, compute
    df = frame(spec["t"])
    before = df.copy(deep=True)
    rs = rows(spec["t"])
    ex = spec["ex"]
    names = []
    want = {}
    for e in ex:
        s = text(e)
        if s not in want:
            names.append(s)
            want[s] = expected(e, rs)
    ctx.nontrivial(any(depth(e) >= 2 for e in ex))
    ctx.label(f"depth {max(map(depth, ex))}", "several" if len(names) > 1 else "one")
    for s in names:
        got = columnize(df, s, inplace=False, dtype=float)
        require(isinstance(got, pd.Series), "a column is a series", type(got))
        require(got.index.equals(df.index), "index of a column")
        close(got.values, want[s], what="column " + s)
        close(np.asarray(compute(df, s), dtype=float), want[s], what="column without a type " + s)
    got = columnize(df, list(names), inplace=False, dtype=float)
    equal(sorted(got.columns), sorted(names), "columns")
    require(got.index.equals(df.index), "index of a table")
    for s in names:
        close(got[s].values, want[s], what="in a table, column " + s)
    if spec["map"]:
        keys = [7 - k for k in range(len(names))]
        got = columnize(df, dict(zip(keys, names)), inplace=False, dtype=float)
        for k, s in zip(keys, names):
            close(got[k].values, want[s], what=f"under key {k}, column {s}")
    require(df.equals(before), "evaluating changed the table")
    new = [s for s in names if s not in df.columns and s not in IDX]
    if new:
        ctx.label("in place")
        columnize(df, new, inplace=True, dtype=float)
        for s in new:
            close(df[s].values, want[s], what="in place, column " + s)
        require(df[list(before.columns)].equals(before), "evaluating in place changed other columns")
    with rejects(NameError):
        columnize(before, "nothing_like_that * 2", inplace=False)


@st.composite
def request(draw):
    t = draw(table())
    n, J = len(t["ids"]), len(t["alts"])
    co = {"inc": [FV[x % 12] for x in draw(st.binary(min_size=n, max_size=n))],
          "size": [x % 5 + 1 for x in draw(st.binary(min_size=n, max_size=n))]}
    ca = [draw(number(INT + FLT, draw(st.integers(0, 2)))) for _ in range(draw(st.integers(1, 3)))]
    both = [draw(number(FLT + ["inc", "size"], draw(st.integers(0, 2)))) for _ in range(draw(st.integers(0, 2)))]
    oo = [draw(number(["inc", "size"], draw(st.integers(0, 2)))) for _ in range(draw(st.integers(0, 3)))]
    return {"t": t, "co": co, "ca": ca + both, "oo": oo,
            "ch": draw(st.sampled_from(["ca", "co", "code"])), "av": draw(st.sampled_from(["ca", "co"])),
            "che": draw(truth(INT, 1)), "ave": draw(truth(["i", "j"], 1)),
            "cho": [draw(truth_co()) for _ in t["alts"]], "avo": [draw(truth_co()) for _ in t["alts"]],
            "wt": draw(number(["inc", "size"], draw(st.integers(0, 2)))),
            "ce": draw(st.booleans()), "drop": draw(st.binary(min_size=n * J, max_size=n * J))}


@st.composite
def truth_co(draw):
    return ["cmp", draw(st.sampled_from(["<", "==", ">", "!="])), draw(number(["inc", "size"], 1)), ["num", draw(st.sampled_from(CONST))]]


@check("P02", request(), quick=1200)
def requested(spec, ctx):
    """Data asked for by expressions from the two tables of a DataFrames."""
    import larch
    t = spec["t"]
    n, J = len(t["ids"]), len(t["alts"])
    ca = frame(t).drop(columns="s").sort_index()
    alts, ids = sorted(t["alts"]), sorted(t["ids"])
    co = pd.DataFrame(spec["co"], index=pd.Index(t["ids"], name="caseid")).sort_index()
    rs = {(r["caseid"], r["altid"]): dict(r, **{k: v[t["ids"].index(r["caseid"])] for k, v in spec["co"].items()}) for r in rows(t)}
    ce = spec["ce"]
    keep = [k for k, (c, a) in enumerate(ca.index) if a == alts[0] or c == ids[0] or spec["drop"][k] % 3] if ce else list(range(n * J))
    src = ca.iloc[keep]
    d = larch.DataFrames(co=co, alt_codes=alts, **{"ce" if ce else "ca": src})
    cor = [dict({k: v[t["ids"].index(c)] for k, v in spec["co"].items()}, caseid=c) for c in ids]
    caq = [text(e) for e in spec["ca"]]
    coq = [text(e) for e in spec["oo"]]
    req = {"ca": caq, "co": coq, "weight_co": text(spec["wt"])}
    if spec["ch"] == "ca":
        req["choice_ca"] = text(spec["che"])
    elif spec["ch"] == "co":
        req["choice_co"] = {a: text(e) for a, e in zip(alts, spec["cho"])}
    else:
        req["choice_co_code"] = "size"
    if spec["av"] == "ca":
        req["avail_ca"] = text(spec["ave"])
    else:
        req["avail_co"] = {a: text(e) for a, e in zip(alts, spec["avo"])}
    r = d.make_dataframes(req)
    ctx.nontrivial(any(depth(e) >= 2 for e in spec["ca"] + spec["oo"]))
    ctx.label("sparse" if ce else "dense", "choice " + spec["ch"], "availability " + spec["av"],
              "case columns with alternatives" if any(uses(e) & {"inc", "size"} for e in spec["ca"]) else "alternative columns")
    got = r.data_ca if r.data_ce is None else r.data_ce  # complete data is kept as idca
    equal([tuple(i) for i in got.index], [tuple(i) for i in src.index], "rows")
    for e, s in zip(spec["ca"], caq):
        close(got[s].values, expected(e, [rs[tuple(i)] for i in src.index]), what="by alternative " + s)
    for e, s in zip(spec["oo"], coq):
        equal(list(r.data_co.index), ids, "cases")
        close(r.data_co[s].values, expected(e, cor), what="by case " + s)
    close(r.data_wt.values.reshape(-1), expected(spec["wt"], cor), what="weights")

    def dense(e):
        out = np.zeros([n, J])
        for k, (c, a) in enumerate(src.index):
            out[ids.index(c), alts.index(a)] = expected(e, [rs[c, a]])[0]
        return out
    if spec["ch"] == "ca":
        want = dense(spec["che"])
    elif spec["ch"] == "co":
        want = np.stack([expected(e, cor) for e in spec["cho"]], 1)
    else:
        want = np.array([[float(row["size"] == a) for a in alts] for row in cor])
    close(r.data_ch.values, want, what="choices")
    equal(list(r.data_ch.columns), alts, "alternatives of choices")
    if spec["av"] == "ca":
        want = dense(spec["ave"])
    else:
        want = np.stack([expected(e, cor) for e in spec["avo"]], 1)
    close(r.data_av.values, want, what="availability")
    equal(list(r.data_av.columns), alts, "alternatives of availability")
