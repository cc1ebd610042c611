"""P01: utility expressions mean what their arithmetic means."""
import copy, math, pickle
import numpy as np
from hypothesis import strategies as st
from vt.core import check, require, close, equal, Violation
from vt.gen import GRID

from larch.roles import P, X
from larch.model.linear import (ParameterRef_C, DataRef_C, LinearComponent_C, LinearFunction_C,
                                )
from larch.model.linear_math import ParameterOp

PN = ["a", "b", "c", "Cost", "lambda", "in veh"]
XN = ["x", "y", "z", "tottime", "dist"]
PVAL = {"a": 0.75, "b": -1.5, "c": 2.25, "Cost": -0.0625, "lambda": 3.0, "in veh": 0.4375, "_": 1.0}
REJECT = (TypeError, NotImplementedError, AttributeError)

num = st.sampled_from([0, 1, 2, -1, 0.5, 1.0, 3, 0.0, -2.5, 10, 0.001])
leaf = st.one_of(
    st.tuples(st.just("p"), st.sampled_from(PN)),
    st.tuples(st.just("x"), st.sampled_from(XN)),
    st.tuples(st.just("x"), st.sampled_from(XN)),
    st.tuples(st.just("p"), st.sampled_from(PN)),
    st.tuples(st.just("n"), num),
    st.tuples(st.just("c"), st.sampled_from(["0", "1", "0.0", "1.0", "2", "-3", "x+y", "(x>y)*1.0", "-x"])),
)
term = st.one_of(
    leaf,
    st.tuples(st.just("mul"), st.tuples(st.just("p"), st.sampled_from(PN)), st.tuples(st.just("x"), st.sampled_from(XN))),
    st.tuples(st.just("mul"), st.tuples(st.just("x"), st.sampled_from(XN)), st.tuples(st.just("p"), st.sampled_from(PN))),
    st.tuples(st.just("mul"), st.tuples(st.just("mul"), st.tuples(st.just("p"), st.sampled_from(PN)), st.tuples(st.just("n"), num)),
              st.tuples(st.just("x"), st.sampled_from(XN))),
)


def _ext(e):
    return st.one_of(
        st.tuples(st.sampled_from(["add", "sub", "mul", "div", "add", "sub", "mul"]), e, e),
        st.tuples(st.sampled_from(["neg", "pos"]), e),
        st.tuples(st.just("sum"), st.lists(e, min_size=1, max_size=4).map(tuple)),
        st.tuples(st.just("iadd"), e, e),
    )


expr = st.recursive(term, _ext, max_leaves=10)
exprspec = st.fixed_dictionaries({
    "e": expr,
    "data": st.lists(st.sampled_from([1.0, 2.0, -1.0, 0.5, 3.0, 0.0, -2.5]), min_size=5, max_size=5),
    "order": st.booleans(),
})


class Undefined(Exception):
    pass


def ref(e, ns):
    """The value the written arithmetic has."""
    k = e[0]
    if k == "p":
        return PVAL[e[1]]
    if k == "x":
        return ns[e[1]]
    if k == "n":
        return float(e[1])
    if k == "c":
        return float(eval(e[1], {}, ns))
    if k in ("add", "iadd"):
        return ref(e[1], ns) + ref(e[2], ns)
    if k == "sub":
        return ref(e[1], ns) - ref(e[2], ns)
    if k == "mul":
        return ref(e[1], ns) * ref(e[2], ns)
    if k == "div":
        d = ref(e[2], ns)
        if d == 0:
            raise Undefined()
        return ref(e[1], ns) / d
    if k == "neg":
        return -ref(e[1], ns)
    if k == "pos":
        return ref(e[1], ns)
    if k == "sum":
        return sum(ref(i, ns) for i in e[1])
    raise KeyError(k)


def build(e):
    k = e[0]
    if k == "p":
        return P(e[1])
    if k == "x":
        return X(e[1])
    if k == "n":
        return e[1]
    if k == "c":
        return X(e[1])
    if k == "iadd":
        # on a private copy: += on a function changes it in place
        a = build(e[1])
        if isinstance(a, LinearFunction_C):
            a = a.copy()
        a += build(e[2])
        return a
    if k == "add":
        return build(e[1]) + build(e[2])
    if k == "sub":
        return build(e[1]) - build(e[2])
    if k == "mul":
        return build(e[1]) * build(e[2])
    if k == "div":
        return build(e[1]) / build(e[2])
    if k == "neg":
        return -build(e[1])
    if k == "pos":
        return +build(e[1])
    if k == "sum":
        return sum(build(i) for i in e[1])
    raise KeyError(k)


def value(obj, ns):
    if isinstance(obj, (LinearComponent_C, LinearFunction_C)):
        return float(obj.evaluate(PVAL.__getitem__, dict(ns)))
    if isinstance(obj, DataRef_C):
        return float(obj.eval(namespace=dict(ns)))
    if isinstance(obj, (ParameterRef_C, ParameterOp)):
        return float(obj.value(PVAL))
    if isinstance(obj, (int, float)):
        return float(obj)
    raise Violation(f"an operation on expressions returned {obj!r} of type {type(obj)}")


def names_in(e, kind, acc=None):
    acc = set() if acc is None else acc
    if e[0] == kind:
        acc.add(e[1])
    for i in e[1:]:
        if isinstance(i, tuple):
            if i and isinstance(i[0], tuple):
                for j in i:
                    names_in(j, kind, acc)
            elif i and isinstance(i[0], str):
                names_in(i, kind, acc)
    return acc


def has_zero_denominator_risk(e):
    return "'div'" in repr(e)


@check("P01", exprspec, quick=24000, thorough=600000)
def expression_value(spec, ctx):
    ns = dict(zip(XN, spec["data"]))
    try:
        want = ref(spec["e"], ns)
    except Undefined:
        ctx.label("undefined arithmetic")
        return
    try:
        obj = build(spec["e"])
    except REJECT:
        ctx.label("rejected with an error")
        return
    except ZeroDivisionError:
        ctx.label("undefined arithmetic")
        return
    if isinstance(obj, (int, float)):
        ctx.label("plain number")
        return
    ctx.label("result " + type(obj).__name__)
    ctx.nontrivial(isinstance(obj, (LinearFunction_C, ParameterOp, LinearComponent_C)) and bool(names_in(spec["e"], "p")))
    try:
        got = value(obj, ns)
    except ZeroDivisionError:
        # an intermediate form (1/x) may be undefined although the whole is not
        ctx.label("undefined arithmetic")
        return
    close(got, want, rtol=1e-9, atol=1e-9, what=f"value of {obj!r}")
    # evaluation with vector data is elementwise
    if isinstance(obj, (LinearComponent_C, LinearFunction_C)) and not has_zero_denominator_risk(spec["e"]):
        vecs = {k: np.array([v, v + 1.0, 2.0 - v]) for k, v in ns.items()}
        got = obj.evaluate(PVAL.__getitem__, dict(vecs)) + np.zeros(3)
        want = [ref(spec["e"], {k: float(v[i]) for k, v in vecs.items()}) for i in range(3)]
        close(got, want, rtol=1e-9, atol=1e-9, what=f"vector value of {obj!r}")


@check("P01", exprspec, quick=6000, thorough=120000)
def expression_round_trips(spec, ctx):
    """repr evaluates back to the same expression; copies and pickles are equal and independent."""
    ns = dict(zip(XN, [1.25, 2.0, -1.0, 0.5, 3.0]))
    try:
        obj = build(spec["e"])
    except REJECT + (ZeroDivisionError,):
        return
    if isinstance(obj, (int, float)):
        return
    if isinstance(obj, LinearFunction_C) and len(obj) == 0:
        return
    ctx.label(type(obj).__name__)
    ctx.nontrivial(isinstance(obj, (LinearFunction_C, LinearComponent_C, ParameterOp)))
    try:
        v0 = value(obj, ns)
    except ZeroDivisionError:
        return
    back = eval("(" + repr(obj) + ")", {"P": P, "X": X})
    close(value(back, ns), v0, rtol=1e-12, atol=1e-12, what=f"value of the expression printed as {obj!r}")
    if isinstance(obj, LinearFunction_C):
        drop_zero = [c for c in obj if c.scale != 0 and c.data not in ("0", "0.0")]
        if len(drop_zero) == len(obj) and len(obj) > 1:
            norm = lambda f: [(str(c.param), "1" if c.data in ("1", "1.0") else str(c.data), c.scale) for c in f]
            require(norm(back) == norm(obj), f"{obj!r} is printed as text that evaluates to {back!r}")
    for how, dup in (("pickle", lambda o: pickle.loads(pickle.dumps(o))), ("deepcopy", copy.deepcopy), ("copy", copy.copy)):
        if isinstance(obj, ParameterOp) and how == "pickle":
            pass
        d = dup(obj)
        require(type(d) is type(obj), f"{how} of {obj!r} is a {type(d)}")
        if not isinstance(obj, ParameterOp):
            require(d == obj, f"{how} of {obj!r} is {d!r}")
        close(value(d, ns), v0, rtol=1e-12, atol=1e-12, what=f"value of a {how} of {obj!r}")
    if isinstance(obj, LinearFunction_C):
        before = repr(obj)
        d = obj.copy()
        d.append(P.zz * X.zz)
        require(repr(obj) == before and len(d) == len(obj) + 1, "appending to a copy changed the original")


# forms every user of the package writes: these must be accepted, and mean what they say
_pt = st.tuples(st.just("p"), st.sampled_from(PN))
_xt = st.tuples(st.just("x"), st.sampled_from(XN))
_nt = st.sampled_from([2, 0.5, -1, 100, 0.001, 3]).map(lambda n: ("n", n))
uterm = st.one_of(
    _pt,
    st.tuples(st.just("mul"), _pt, _xt),
    st.tuples(st.just("mul"), _xt, _pt),
    st.tuples(st.just("mul"), st.tuples(st.just("mul"), _pt, _xt), _nt),
    st.tuples(st.just("mul"), _nt, st.tuples(st.just("mul"), _pt, _xt)),
    st.tuples(st.just("mul"), st.tuples(st.just("mul"), _pt, _nt), _xt),
    st.tuples(st.just("mul"), _pt, st.tuples(st.sampled_from(["add", "sub", "mul", "div"]), _xt, _xt)),
    st.tuples(st.just("div"), st.tuples(st.just("mul"), _pt, _xt), _nt),
    st.tuples(st.just("mul"), st.tuples(st.just("mul"), _pt, _xt), _xt),
    st.tuples(st.just("mul"), st.tuples(st.just("div"), _xt, _xt), _pt),
    st.tuples(st.just("neg"), st.tuples(st.just("mul"), _pt, _xt)),
)


def _uext(e):
    return st.one_of(
        st.tuples(st.sampled_from(["add", "sub", "add"]), e, uterm),
        st.tuples(st.just("add"), e, e),
        st.tuples(st.just("sub"), e, e),
    )


_p2 = st.tuples(st.just("add"), uterm, uterm)
ufunc = st.one_of(
    st.recursive(_p2, _uext, max_leaves=5),
    st.lists(uterm, min_size=2, max_size=5).map(lambda l: ("sum", tuple(l))),
    st.tuples(st.just("iadd"), _p2, st.one_of(uterm, _p2)),
)
uexpr = st.one_of(
    ufunc,
    st.tuples(st.just("mul"), ufunc, _xt),
    st.tuples(st.just("mul"), ufunc, _nt),
    st.tuples(st.just("mul"), _xt, ufunc),
    st.tuples(st.just("neg"), ufunc),
    st.tuples(st.just("mul"), st.tuples(st.just("sum"), st.lists(st.tuples(st.just("mul"), _nt, _xt), min_size=2, max_size=3).map(tuple)), _pt),
)


@check("P01", st.fixed_dictionaries({"e": uexpr, "data": st.lists(st.sampled_from([1.0, 2.0, -1.0, 0.5, 3.0, -2.5]), min_size=5, max_size=5)}),
       quick=8000, thorough=200000)
def documented_forms(spec, ctx):
    ns = dict(zip(XN, spec["data"]))
    want = ref(spec["e"], ns)
    obj = build(spec["e"])
    require(isinstance(obj, (LinearComponent_C, LinearFunction_C, ParameterOp, ParameterRef_C)), f"{obj!r} is a {type(obj)}")
    ctx.label(spec["e"][0])
    ctx.nontrivial(len(names_in(spec["e"], "p")) > 1)
    close(value(obj, ns), want, rtol=1e-9, atol=1e-9, what=f"value of {obj!r}")
    if isinstance(obj, LinearFunction_C):
        got = obj.evaluate(PVAL.__getitem__, dict(ns), exp_params=True)
        w = sum(c.scale * math.exp(PVAL[str(c.param)]) * float(eval(str(c.data), {}, dict(ns))) for c in obj)
        close(got, w, rtol=1e-9, atol=1e-9, what="value with exponentiated parameters")


# ---------------------------------------------------------------- data references
BOOL = ["boolean(x==1)", "boolean(x==2)", "boolean(y==1)", "boolean(x==1.0)", "boolean(x==y)", "boolean(x)", "fmax(x,1)"]
dleaf = st.one_of(st.sampled_from(XN + BOOL + ["x+y", "x*y", "-x", "2", "1", "0", "x-y", "x/2", "fmin(x,y)", "log(dist)", "00"]).map(lambda s: ("x", s)),
                  num.map(lambda n: ("n", n)))
dexpr = st.recursive(dleaf, lambda e: st.one_of(
    st.tuples(st.sampled_from(["+", "-", "*", "/", "//", "**", "+", "-", "*"]), e, e),
    st.tuples(st.sampled_from(["neg", "pos"]), e)), max_leaves=5)


def dref(e, ns):
    if e[0] == "n":
        return float(e[1])
    if e[0] == "x":
        return float(eval(e[1].replace("00", "0"), {}, ns))
    if e[0] == "neg":
        return -dref(e[1], ns)
    if e[0] == "pos":
        return dref(e[1], ns)
    a, b = dref(e[1], ns), dref(e[2], ns)
    if e[0] in ("/", "//") and b == 0:
        raise Undefined()
    if e[0] == "**":
        if a < 0 and b != int(b) or a == 0 and b < 0 or abs(b) > 6:
            raise Undefined()
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
            "//": lambda: a // b, "**": lambda: a ** b}[e[0]]()


def dbuild(e):
    if e[0] == "n":
        return e[1]
    if e[0] == "x":
        return X(e[1])
    if e[0] == "neg":
        return -dbuild(e[1])
    if e[0] == "pos":
        return +dbuild(e[1])
    a, b = dbuild(e[1]), dbuild(e[2])
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
            "//": lambda: a // b, "**": lambda: a ** b}[e[0]]()


@check("P01", st.fixed_dictionaries({"e": dexpr, "data": st.lists(st.sampled_from([1.0, 2.0, -1.0, 0.5, 3.0]), min_size=4, max_size=4)}),
       quick=12000, thorough=200000)
def data_expression_value(spec, ctx):
    """Arithmetic on data references gives text which computes that arithmetic."""
    ns = dict(zip(XN, spec["data"] + [2.0]))
    ns["boolean"] = lambda v: float(bool(v))
    ns["fmin"], ns["fmax"], ns["log"] = np.fmin, np.fmax, np.log
    try:
        want = dref(spec["e"], ns)
    except Undefined:
        return
    try:
        obj = dbuild(spec["e"])
    except REJECT + (ZeroDivisionError, OverflowError):
        ctx.label("rejected with an error")
        return
    if isinstance(obj, (int, float, complex)):
        return
    ctx.label(type(obj).__name__)
    ctx.nontrivial(spec["e"][0] not in ("x", "n"))
    ns2 = {k: (np.float64(v) if isinstance(v, float) else v) for k, v in ns.items()}
    with np.errstate(all="ignore"):
        try:
            if isinstance(obj, DataRef_C):
                got = obj.eval(namespace=ns2)
            elif isinstance(obj, ParameterOp):
                got = obj.value(PVAL)
            else:
                got = obj.evaluate(PVAL.__getitem__, dict(ns2))
        except ZeroDivisionError:
            return
    got = float(got)
    if not math.isfinite(got):
        return
    close(got, want, rtol=1e-9, atol=1e-9, what=f"value of {obj!r}")


# ---------------------------------------------------------------- functions as containers
comp = st.tuples(st.sampled_from(PN), st.sampled_from(XN), st.sampled_from([1.0, 2.0, -0.5, 0.0]))
ops = st.lists(st.one_of(
    st.tuples(st.just("append"), comp),
    st.tuples(st.just("iadd"), comp),
    st.tuples(st.just("iaddf"), st.lists(comp, max_size=3)),
    st.tuples(st.just("isub"), comp),
    st.tuples(st.just("insert"), st.integers(-3, 4), comp),
    st.tuples(st.just("extend"), st.lists(comp, max_size=3)),
    st.tuples(st.just("del"), st.integers(-3, 4)),
    st.tuples(st.just("set"), st.integers(-3, 4), comp),
    st.tuples(st.just("remove_data"), st.sampled_from(XN)),
    st.tuples(st.just("remove_param"), st.sampled_from(PN)),
    st.tuples(st.just("reassign"), st.lists(comp, max_size=3)),
    st.tuples(st.just("reformat"), st.sampled_from(["{}_s", "pre {}", "{}"])),
    st.tuples(st.just("resub"), st.sampled_from(["a", "C", "o"]), st.sampled_from(["", "Q"])),
    st.tuples(st.just("alias")),
    st.tuples(st.just("mulx"), st.sampled_from(XN)),
    st.tuples(st.just("muln"), st.sampled_from([2.0, -1, 0.5])),
), min_size=1, max_size=12)


def mk(c):
    return LinearComponent_C(param=c[0], data=c[1], scale=c[2])


def as_list(f):
    return [(str(c.param), str(c.data), float(c.scale)) for c in f]


@check("P01", st.tuples(st.booleans(), ops), quick=6000, thorough=100000)
def function_is_a_term_list(spec, ctx):
    """A linear function edited in place holds exactly the terms a list edited alike holds, and a model using it sees them."""
    import larch
    import re as _re
    inmodel, seq = spec
    m = larch.Model(alts={1: "one", 2: "two"}) if inmodel else None
    if inmodel:
        m.utility_ca = LinearFunction_C()
        f = m.utility_ca
    else:
        f = LinearFunction_C()
    ref_ = []
    old = None
    for op in seq:
        k = op[0]
        ctx.label(k)
        if inmodel:
            f = m.utility_ca
        if k == "append":
            f.append(mk(op[1])); ref_.append(op[1])
        elif k == "iadd":
            if inmodel:
                m.utility_ca += mk(op[1])
            else:
                f += mk(op[1])
            ref_.append(op[1])
        elif k == "iaddf":
            g = LinearFunction_C([mk(c) for c in op[1]])
            if inmodel:
                m.utility_ca += g
            else:
                f += g
            ref_ += op[1]
        elif k == "isub":
            if inmodel:
                m.utility_ca -= mk(op[1])
            else:
                f -= mk(op[1])
            ref_ = ref_ + [(op[1][0], op[1][1], -op[1][2])]
        elif k == "insert":
            f.insert(op[1], mk(op[2])); ref_.insert(op[1], op[2])
        elif k == "extend":
            f.extend([mk(c) for c in op[1]]); ref_ += op[1]
        elif k == "del":
            if -len(ref_) <= op[1] < len(ref_):
                del f[op[1]]; del ref_[op[1]]
        elif k == "set":
            if -len(ref_) <= op[1] < len(ref_):
                f[op[1]] = mk(op[2]); ref_[op[1]] = op[2]
        elif k == "remove_data":
            f.remove_data(op[1]); ref_ = [c for c in ref_ if c[1] != op[1]]
        elif k == "remove_param":
            f.remove_param(op[1]); ref_ = [c for c in ref_ if c[0] != op[1]]
        elif k == "reassign":
            new = LinearFunction_C([mk(c) for c in op[1]])
            if inmodel:
                m.utility_ca = new
                new.append(mk(("zz", "zz", 1.0)))   # a later change of the assigned object is not a change of the model
            else:
                f = new
            ref_ = list(op[1])
        elif k == "reformat":
            g = f.reformat_param(op[1])
            equal(as_list(g), [(op[1].format(c[0]), c[1], c[2]) for c in ref_], "reformat_param")
        elif k == "resub":
            g = f.reformat_param(pattern=op[1], repl=op[2])
            equal(as_list(g), [(_re.sub(op[1], op[2], c[0]), c[1], c[2]) for c in ref_], "reformat_param with pattern")
            g = f.reformat_data(pattern=op[1], repl=op[2])
            equal(as_list(g), [(c[0], _re.sub(op[1], op[2], c[1]), c[2]) for c in ref_], "reformat_data with pattern")
        elif k == "mulx":
            g = f * X(op[1])
            equal(as_list(g), [(c[0], f"{c[1]}*{op[1]}", c[2]) for c in ref_], "function times data")
        elif k == "muln":
            g = f * op[1]
            equal(as_list(g), [(c[0], c[1], c[2] * op[1]) for c in ref_], "function times number")
        elif k == "alias":
            old = (f.copy(), list(ref_))
        now = m.utility_ca if inmodel else f
        equal(as_list(now), ref_, f"terms after {op}")
        equal(len(now), len(ref_), "len")
        for p in PN:
            equal(P(p) in now, any(c[0] == p for c in ref_), f"P({p!r}) in function")
        for x in XN:
            equal(X(x) in now, any(c[1] == x for c in ref_), f"X({x!r}) in function")
        equal([str(d) for d in now.data()], [c[1] for c in ref_], "data()")
        if old is not None:
            equal(as_list(old[0]), old[1], "an earlier copy")
        if inmodel:
            # the parameters of the model include all those named by its utility function
            missing = set(c[0] for c in ref_) - set(m.pf.index)
            require(not missing, f"parameters {missing} of the utility function are not in the model after {op}")
    ctx.nontrivial(len(seq) >= 3)
