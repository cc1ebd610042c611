"""Constraints on parameters, in words or as objects, mean the inequality they state."""
import functools
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, close, require, equal, raises, rejects

NAMES = ["b", "a", "e", "E2", "hhinc#2", "ASC:x", "tot&cost", "mu1", "$t", "Z"]
NUMS = [("2", 2.0), ("-1", -1.0), ("0.5", 0.5), (".25", 0.25), ("1e0", 1.0), ("+3", 3.0), ("1/2", 0.5), ("3/2", 1.5),
        ("-1/4", -0.25), ("-2.5e-1", -0.25), ("2.", 2.0), ("0", 0.0), ("1E1", 10.0), ("125E-3", 0.125), ("-.5", -0.5)]
FORMS = ["a<b", "a>b", "a<n", "a>n", "n<a", "n>a", "n<a<m", "a/b<n", "a/b>n", "n<a/b<m"]
VALUES = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.25, -2.0, 1.5, -0.25, 0.75, 3.0, -3.0, 0.125, 0.5, 1.0]


@st.composite
def one(draw, names):
    f = draw(st.sampled_from(FORMS))
    i, j = draw(st.permutations(range(len(names))))[:2]
    n, m = draw(st.integers(0, len(NUMS) - 1)), draw(st.integers(0, len(NUMS) - 1))
    if NUMS[n][1] > NUMS[m][1]:
        n, m = m, n
    return {"f": f, "a": names[i], "b": names[j], "n": n, "m": m, "eq": draw(st.booleans()),
            "sp": draw(st.integers(0, 3)), "text": draw(st.sampled_from([True, True, False]))}


def text(c):
    sp = ["", " ", "  ", " "][c["sp"]]
    out = ""
    for ch in c["f"]:
        if ch in "<>":
            out += sp + ch + ("=" if c["eq"] else "") + sp
        elif ch == "/":
            out += ch if c["sp"] != 3 else " / "
        elif ch in "nm":
            out += NUMS[c[ch]][0]
        else:
            out += c[ch]
    return out


def limits(c):
    """(lower, upper) of what the constraint limits."""
    f, n, m = c["f"], NUMS[c["n"]][1], NUMS[c["m"]][1]
    if f in ("n<a<m", "n<a/b<m"):
        return n, m
    if f in ("a<n", "n>a", "a/b<n"):
        return None, n
    if f in ("a>n", "n<a", "a/b>n"):
        return n, None
    return None


def kind(c):
    return "ratio" if "/" in c["f"] else "order" if c["f"] in ("a<b", "a>b") else "fixed"


def make(c):
    """The constraint as text, or as an object."""
    from larch.model.constraints import RatioBound, OrderingBound, FixedBound, interpret_contraint
    if c["text"]:
        t = text(c)
        if kind(c) == "order" and c["n"] % 2:
            return OrderingBound(t)
        return interpret_contraint(t)
    k = kind(c)
    if k == "order":
        return OrderingBound(c["a"], c["b"]) if c["f"] == "a<b" else OrderingBound(c["b"], c["a"])
    lo, hi = limits(c)
    return (RatioBound(c["a"], c["b"], lo, hi) if k == "ratio" else FixedBound(c["a"], lo, hi))


def key(c):
    """What makes two constraints the same."""
    if kind(c) == "order":
        return ("order", c["a"], c["b"]) if c["f"] == "a<b" else ("order", c["b"], c["a"])
    return (kind(c), c["a"], c["b"] if kind(c) == "ratio" else None) + limits(c)


def slack(c, x):
    """(amount by which the lower limit is respected, the same for the upper one); x maps names to values.
    For a ratio the amounts are in units of the numerator, times the sign of the denominator."""
    a = x[c["a"]]
    if kind(c) == "order":
        d = x[c["b"]] - a
        return (d if c["f"] == "a<b" else -d), np.inf
    lo, hi = limits(c)
    if kind(c) == "fixed":
        return (a - lo if lo is not None else np.inf), (hi - a if hi is not None else np.inf)
    den = x[c["b"]]
    s = x["sign of " + c["b"]]
    return ((a - lo * den) * s if lo is not None else np.inf), ((hi * den - a) * s if hi is not None else np.inf)


@functools.lru_cache(None)
def _data():
    import larch
    idx = pd.Index([1, 2, 3], name="caseid")
    co = pd.DataFrame({"x": [1.0, 2.0, 3.0], "y": [0.5, -1.0, 2.0]}, index=idx)
    ch = pd.DataFrame([[1, 0], [0, 1], [1, 0]], index=idx, columns=[1, 2], dtype=float)
    return co, ch


def model(names, numba=False):
    import larch
    from larch.roles import P, X
    co, ch = _data()
    if numba:
        from larch.numba import Model, Dataset
        ds = Dataset.construct.from_idco(co.assign(ch=[1, 2, 1]), alts=[1, 2])
        m = Model(datatree=ds)
        m.choice_co_code = "ch"
        m.availability_any = True
    else:
        m = larch.Model()
        m.dataservice = larch.DataFrames(data_co=co, data_ch=ch, data_av=(ch * 0 + 1).astype(np.int8), alt_codes=[1, 2])
    for i, n in enumerate(names):
        m.utility_co[1 + i % 2] = m.utility_co[1 + i % 2] + P(n) * X(["x", "y", "x*y", "x**2", "1"][i % 5])
    if numba:
        m.availability_co_vars = {1: "1", 2: "1"}
    return m


SIGNS = [(0.0, np.inf), (0.25, 5.0), (-np.inf, 0.0), (-4.0, -0.125)]


def verify(c, con, x, order, what):
    """The linked constraint `con` says of the values x (by name) what `c` says."""
    vec = np.array([x[n] for n in order])
    lo, hi = slack(c, x)
    got = float(con.fun(vec))
    worst = min(lo, hi)
    if abs(worst) > 1e-9 and np.isfinite(worst):
        require((got > 0) == (worst > 0), what, text(c), "at", x, "gives", got, "with slack", worst)
    else:
        if np.isfinite(worst):
            close(got, 0, atol=1e-7, what=what + " on the limit")
    # derivative, where both sides are not equally near
    if not (np.isfinite(lo) and np.isfinite(hi) and abs(lo - hi) < 1e-3):
        j = np.asarray(con.jac(vec.copy()))
        for k in range(len(vec)):
            h = 1e-4
            up, dn = vec.copy(), vec.copy()
            up[k] += h
            dn[k] -= h
            if np.isfinite(got) and abs(con.fun(up) + con.fun(dn) - 2 * got) > 1e-6:
                continue  # the nearer side changes here
            close(j[k], (con.fun(up) - con.fun(dn)) / 2 / h, rtol=1e-5, atol=1e-5, what=what + f" jac[{k}] of {text(c)}")
        if abs(worst) < 1e-9:
            note = con.get_binding_note(vec)
            lims = limits(c)
            if lims is None:
                equal(note, f"{key(c)[1]} ≤ {key(c)[2]}", "note")
            else:
                name = c["a"] if kind(c) == "fixed" else f"{c['a']} / {c['b']}"
                equal(note, f"{name} ≥ {lims[0]}" if lo < hi else f"{name} ≤ {lims[1]}", "note")
    equal(bool(con.is_binding(vec)), abs(got) < con.binding_tol, "is_binding")
    for d in con.as_constraint_dicts():
        require(d["type"] == "ineq", d)
        close(d["fun"](vec), got, what="fun of the dict")
    if abs(worst) > 1e-9:
        inside = True
        for lc in con.as_linear_constraints():
            v = np.asarray(lc.A) @ vec
            inside &= bool(np.all(v >= np.asarray(lc.lb) - 1e-12) and np.all(v <= np.asarray(lc.ub) + 1e-12))
        equal(inside, worst > 0, what + " linear form of " + text(c) + f" at {x}")


@st.composite
def meaning_spec(draw):
    k = draw(st.integers(3, 5))
    names = draw(st.permutations(NAMES))[:k]
    c = draw(one(names))
    b = draw(st.binary(min_size=4 * k, max_size=4 * k))
    return {"names": names, "c": c, "x": [[VALUES[v % 16] for v in b[i * k:i * k + k]] for i in range(4)],
            "sign": draw(st.integers(0, 3)), "straddle": draw(st.sampled_from([False] * 7 + [True])),
            "scale": draw(st.sampled_from([None, 1.0, 0.1, 10.0, 50.0])), "new": draw(st.booleans()), "sort": draw(st.booleans())}


@check("P11", meaning_spec(), quick=1600)
def meaning(spec, ctx):
    c = spec["c"]
    ctx.label(c["f"], "text" if c["text"] else "object")
    m = model(spec["names"])
    lo, hi = SIGNS[spec["sign"]]
    if kind(c) == "ratio":
        if spec["straddle"]:
            m.unmangle()
            ctx.label("denominator of either sign")
            with rejects(ValueError):
                m.constraints.append(text(c) if c["text"] else make(c))
            equal(len(m.constraints), 0, "a refused constraint is not added")
            return
        m.unmangle()
        m.pf.loc[c["b"], "minimum"] = lo
        m.pf.loc[c["b"], "maximum"] = hi
    if c["text"] and spec["scale"] is None:
        m.constraints.append(text(c))
    else:
        m.constraints.append(make(c))
    equal(len(m.constraints), 1, "constraints")
    equal(set(m.constraints[0].get_parameters()), {c["a"]} if kind(c) == "fixed" else {c["a"], c["b"]}, "parameters")
    ctx.nontrivial()
    from larch.roles import P, X
    if spec["new"]:
        m.utility_co[2] = m.utility_co[2] + P("A_new") * X("x")
    if spec["sort"]:
        m.pf_sort()
    if spec["scale"] is not None:
        m.unmangle()
        m.constraints.rescale(spec["scale"])
    m.unmangle()
    order = list(m.pf.index)
    con = m.constraints[0]
    for k, row in enumerate(spec["x"]):
        x = dict(zip(spec["names"], row))
        x["A_new"] = 0.5
        if kind(c) == "ratio":
            s = 1.0 if spec["sign"] < 2 else -1.0
            x["sign of " + c["b"]] = s
            x[c["b"]] = s * abs(x[c["b"]])
            if k == 3:
                # on the limit
                lim = [v for v in limits(c) if v is not None]
                x[c["a"]] = lim[0] * x[c["b"]]
        elif k == 3:
            x[c["a"]] = x[c["b"]] if kind(c) == "order" else [v for v in limits(c) if v is not None][-1]
        verify(c, con, x, order, "constraint")


OPS = ["append", "append", "append", "insert", "insert", "set", "del", "pop", "remove", "iadd", "extend", "assign", "self",
       "clear", "delete", "param", "sort", "bad", "badtype", "values", "add_"]


@st.composite
def edits_spec(draw):
    names = draw(st.permutations(NAMES))[:4]
    n = draw(st.integers(3, 12))
    pool = [draw(one(names).filter(lambda c: True)) for _ in range(4)]
    b = draw(st.binary(min_size=3 * n, max_size=3 * n))
    return {"names": names, "pool": pool, "ops": [[OPS[b[3 * i] % len(OPS)], b[3 * i + 1], b[3 * i + 2]] for i in range(n)],
            "x": [VALUES[v % 16] for v in draw(st.binary(min_size=4, max_size=4))]}


@check("P11", edits_spec(), quick=800)
def edits(spec, ctx):
    """The constraints of a model under edits, against a plain list without duplicates."""
    from larch.roles import P, X
    names, pool = list(spec["names"]), spec["pool"]
    m = model(names)
    m.unmangle()
    for n in names:
        # ratios need denominators of one sign
        m.pf.loc[n, "minimum"] = 0.0
    held = []

    def put(i, c):
        if key(c) not in [key(h) for h in held]:
            held.insert(i, c)

    new = 0
    for op, a, b in spec["ops"]:
        c = pool[a % len(pool)]
        d = pool[b % len(pool)]
        v = text(c) if c["text"] else make(c)
        if op == "append":
            m.constraints.append(v)
            put(len(held), c)
        elif op == "insert":
            at = b % 6 - 2
            m.constraints.insert(at, v)
            put(at, c)
        elif op == "set" and held:
            at = b % len(held)
            m.constraints[at] = v
            if key(c) not in [key(h) for h in held]:
                held[at] = c
        elif op == "del" and held:
            at = b % len(held)
            del m.constraints[at]
            del held[at]
        elif op == "pop" and held:
            p = m.constraints.pop()
            require(p == make(held.pop()), "pop")
        elif op == "remove" and held:
            at = b % len(held)
            m.constraints.remove(make(held[at]))
            del held[at]
        elif op == "iadd":
            m.constraints += [v, make(d)]
            put(len(held), c)
            put(len(held), d)
        elif op == "extend":
            m.constraints.extend([v, make(d)])
            put(len(held), c)
            put(len(held), d)
        elif op == "assign":
            m.constraints = [make(c)]
            held[:] = [c]
        elif op == "self":
            m.constraints = m.constraints
        elif op == "clear":
            m.constraints.clear()
            held.clear()
        elif op == "delete":
            del m.constraints
            held.clear()
        elif op == "param":
            new += 1
            m.utility_co[1] = m.utility_co[1] + P(["A_new", "m_new", "zz_new"][new % 3]) * X("x")
        elif op == "sort":
            m.pf_sort()
        elif op == "bad":
            with rejects(KeyError, ValueError):
                m.constraints.append(["b <", "unknown_name < 2", "a <> b", "a <= b <= e", "", "unknown_name > a"][b % 6])
        elif op == "badtype":
            with rejects(TypeError):
                m.constraints.append([3.0, None][b % 2])
        elif op == "add_":
            m._add_constraint(make(c))
            put(len(held), c)
        equal(len(m.constraints), len(held), f"number of constraints after {op}")
        for h, g in zip(held, m.constraints):
            require(g == make(h), f"after {op}: {g!r} where {text(h)} is expected")
    ctx.nontrivial(len(held) >= 1)
    ctx.label(f"{len(held)} constraints")
    x = {n: abs(v) for n, v in zip(names, spec["x"])}
    m.set_values(**x)
    x.update({"sign of " + n: 1.0 for n in names})
    order = list(m.pf.index)
    for n in order:
        x.setdefault(n, 0.0)
    for h, g in zip(held, m.constraints):
        verify(h, g, x, order, "after edits:")
    # all the binding constraints, bounds included
    bind = []
    for h, g in zip(held, m.constraints):
        w = min(slack(h, x))
        f = float(g.fun(np.array([x[n] for n in order])))
        if abs(w) < 1e-9:
            bind.append(repr(g))
        elif abs(f) < 2e-4:
            return
    for n in order:
        if n in names and x[n] < 1e-9:
            bind.append(f"bound {n}")
    got = [repr(g) if g in list(m.constraints) else f"bound {g.get_parameters()[0]}" for g in m.get_all_binding_contraints()]
    equal(sorted(got), sorted(bind), "binding constraints")


@st.composite
def penalty_spec(draw):
    names = ["a", "b", "c"]
    cs = [draw(one(names))]
    if draw(st.integers(0, 3)) == 0:
        cs.append(draw(one(names)))
    b = draw(st.binary(min_size=9, max_size=9))
    return {"cs": cs, "x": [[VALUES[v % 16] for v in b[3 * i:3 * i + 3]] for i in range(3)],
            "intensity": draw(st.sampled_from([1.0, 5.0])), "sharpness": draw(st.sampled_from([1.0, 4.0, 20.0])),
            "bounded": draw(st.booleans())}


@check("P11", penalty_spec(), quick=48, numba=True)
def penalty(spec, ctx):
    """The numba engine: violations are reported, penalties rise with them and have the derivatives they claim."""
    names = ["a", "b", "c"]
    m = model(names, numba=True)
    m.unmangle()
    cs = spec["cs"]
    for c in cs:
        if kind(c) == "ratio":
            m.pf.loc[c["b"], "minimum"] = 0.0
    if spec["bounded"]:
        m.pf.loc["a", "maximum"] = 1.0
    for c in cs:
        m.constraints.append(text(c) if c["text"] else make(c))
    m.unmangle()
    order = list(m.pf.index)
    ctx.label(*[c["f"] for c in cs])
    unique = {key(c): c for c in cs}.values()
    seen = []
    for row in spec["x"]:
        x = {n: v for n, v in zip(names, row)}
        for c in cs:
            if kind(c) == "ratio":
                x[c["b"]] = abs(x[c["b"]])
            x["sign of " + c["b"]] = 1.0
        # a change of values, not a violation of the bounds, is what is under test in the next lines
        m.set_values(**{n: x[n] for n in names})
        worst = min([min(slack(c, x)) for c in unique]
                    + [x[n] - m.pf.minimum[n] for n in names] + [m.pf.maximum[n] - x[n] for n in names])
        if abs(worst) > 1e-6:
            m.constraint_intensity = 0.0
            equal(m.constraint_violation(on_violation="return") == "", worst > 0, f"constraint_violation at {x} {[text(c) for c in cs]}")
            equal(m.constraint_violation(on_violation="return", intensity_check=True), "", "with no intensity")
            if worst < 0:
                with rejects(ValueError):
                    m.constraint_violation()
            else:
                equal(m.constraint_violation(), "", "constraint_violation")
        m.constraint_intensity, m.constraint_sharpness = spec["intensity"], spec["sharpness"]
        p, dp, _ = m.constraint_penalty()
        p, dp = float(p), np.asarray(dp, dtype=float)
        require(p <= 0, "penalty", p)
        kink = any(abs(min(slack(c, x))) < 2e-2 or abs(slack(c, x)[0] - slack(c, x)[1]) < 2e-2 for c in unique)
        if not kink:
            for k, n in enumerate(order):
                h = 1e-3
                v = x.get(n, 0.0)
                m.set_values(**{n: v + h})
                up = float(m.constraint_penalty()[0])
                m.set_values(**{n: v - h})
                dn = float(m.constraint_penalty()[0])
                m.set_values(**{n: v})
                fd = (up - dn) / 2 / h
                # the penalty has a step of 5e-5/sharpness where it is taken to be linear
                close(dp[k], fd, rtol=2e-2, atol=0.15, what=f"derivative of the penalty with respect to {n} at {x} for {[text(c) for c in cs]}")
        seen.append((worst, p))
        ctx.nontrivial(worst < 0)
    m.constraint_intensity = 0.0
    if max(w for w, _ in seen) > 0 > min(w for w, _ in seen):
        # a point that violates a constraint is penalized for it: at growing intensity, without limit
        good, bad = max(seen)[0], min(seen)[0]
        vals = []
        for t in (1.0, 100.0):
            m.constraint_intensity, m.constraint_sharpness = t, t
            for row in spec["x"]:
                x = dict(zip(names, row))
                for c in cs:
                    if kind(c) == "ratio":
                        x[c["b"]] = abs(x[c["b"]])
                    x["sign of " + c["b"]] = 1.0
                m.set_values(**{n: x[n] for n in names})
                w = min([min(slack(c, x)) for c in unique]
                        + [x[n] - m.pf.minimum[n] for n in names] + [m.pf.maximum[n] - x[n] for n in names])
                p = float(m.constraint_penalty()[0])
                if t == 100.0 and w > 0.1:
                    close(p, 0, atol=1e-2, what=f"penalty at {x}, where the constraints hold")
                if t == 100.0 and w < -0.1:
                    require(p < -5, "penalty", p, "at", x, "where constraints are violated by", w)
