"""The parameter table of a model under any sequence of edits is a plain table of numbers."""
import pickle, re
import numpy as np
from hypothesis import strategies as st
from vt.core import check, require, equal, close, rejects

NAMES = ["a", "b", "cost", "cost_hi", "mu", "z"]
NEW = ["early", "later"]
VALS = [0.0, 1.0, -1.0, 0.5, 2.25, -30.0, 40.0, 1e-3]
OPS = ["set", "set", "set_x", "lock", "locks", "scalar", "array", "dict", "kwargs", "force", "null", "init", "best", "free",
       "cap", "shift", "update", "term", "new", "sort", "frame", "batch", "pickle", "bad_len", "nan", "unknown", "prune",
       "read", "expr", "order", "slot", "summary"]
ORDERS = [(), (("Cost", "cost.*"), ("Rest", ".*")), (("A", "a", "b"),), (("X", "nothing"), ("Cost", "cost_hi", "cost")), (("Both", "[ab]"), ("Again", "a", "z"))]


@st.composite
def history(draw):
    start = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    n = draw(st.integers(3, 25))
    b = draw(st.binary(min_size=4 * n, max_size=4 * n))
    ops = [[OPS[b[4 * i] % len(OPS)], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]] for i in range(n)]
    return {"start": start, "ops": ops}


def fresh(v=0.0):
    return {"value": v, "initvalue": v, "nullvalue": 0.0, "minimum": -np.inf, "maximum": np.inf, "holdfast": 0, "note": ""}


class Table:
    def __init__(self, names):
        self.rows = {n: fresh() for n in names}

    @property
    def names(self):
        return sorted(self.rows)

    def free(self):
        return [n for n in self.names if not self.rows[n]["holdfast"]]

    def lock(self, n, v, note=None):
        self.rows[n].update(value=v, initvalue=v, nullvalue=v, minimum=v, maximum=v, holdfast=1)
        if note is not None:
            self.rows[n]["note"] = note


COLS = ["value", "initvalue", "nullvalue", "minimum", "maximum", "holdfast"]


def same(m, t, what):
    pf = m.pf
    equal(list(pf.index), t.names, "parameters " + what)
    for c in COLS:
        got = np.array(pf[c], dtype=float)
        want = np.array([t.rows[n][c] for n in t.names], dtype=float)
        require(np.array_equal(got, want), c, what, "\n got", dict(zip(t.names, got)), "\nwant", dict(zip(t.names, want)))
    notes = [x if isinstance(x, str) else "" for x in pf["note"]]
    equal(notes, [t.rows[n]["note"] for n in t.names], "notes " + what)


def edit(m, t, op, a, b, c, ctx):
    """Apply one edit to the model and to the table; returns the model to go on with."""
    import larch
    from larch.roles import P, X
    names = t.names
    n = names[a % len(names)]
    v = VALS[b % len(VALS)]
    if op == "set":
        m.set_value(n if c % 3 else P(n), v)
        t.rows[n]["value"] = v
        # whether the initial value follows is not settled by the documentation for a parameter that has one
        got = float(m.pf.loc[n, "initvalue"])
        require(got in (t.rows[n]["initvalue"], v), "initial value of", n, "is", got)
        t.rows[n]["initvalue"] = got
    elif op == "set_x":
        kw = {}
        w = VALS[c % len(VALS)]
        for bit, k in enumerate(["initvalue", "nullvalue", "minimum", "maximum"]):
            if (b // 8) >> bit & 1:
                kw[k] = w
        m.set_value(n, v, **{"initvalue": v, **kw})
        t.rows[n].update({"value": v, "initvalue": v, **kw})
    elif op == "free":
        h = int(c % 4 == 0)
        m.set_value(n, holdfast=h)
        t.rows[n]["holdfast"] = h
    elif op == "lock":
        note = ["why not", None][c % 2]
        if c % 3 == 0:
            v = t.rows[n]["nullvalue"]
            m.lock_value(n, "null", note=note)
        else:
            m.lock_value(n if c % 5 else P(n), v, note=note)
        t.lock(n, v, note)
    elif op == "locks":
        n2 = names[c % len(names)]
        note = ["fixed", None][c % 2]
        if n2 != n:
            m.lock_values(n, note=note, **{n2: v})
            t.lock(n, t.rows[n]["value"], note)
            t.lock(n2, v, note)
        else:
            m.lock_values(n, note=note)
            t.lock(n, t.rows[n]["value"], note)
    elif op == "scalar":
        m.set_values(v)
        for k in t.free():
            t.rows[k]["value"] = v
    elif op in ("array", "update"):
        arr = [VALS[(b + i * (1 + c)) % len(VALS)] for i in range(len(names))]
        given = arr if c % 2 else np.array(arr)
        (m.set_values if op == "array" else m.update_values)(given)
        for k, x in zip(names, arr):
            if not t.rows[k]["holdfast"]:
                t.rows[k]["value"] = x
    elif op == "force":
        arr = [VALS[(b + i * (1 + c)) % len(VALS)] for i in range(len(names))]
        if c % 2:
            m.set_values(arr, respect_holdfast=False)
            for k, x in zip(names, arr):
                t.rows[k]["value"] = x
        else:
            m.set_values({n: v}, respect_holdfast=False)
            t.rows[n]["value"] = v
    elif op in ("dict", "kwargs"):
        n2 = names[c % len(names)]
        d = {n: v, n2: VALS[(b // 8) % len(VALS)]}
        if op == "dict":
            m.set_values(d)
        else:
            m.set_values(**d)
        for k, x in d.items():
            if not t.rows[k]["holdfast"]:
                t.rows[k]["value"] = x
    elif op in ("null", "init"):
        m.set_values(["NULL", "null"][c % 2] if op == "null" else ["init", "initial", "Init"][c % 3])
        for k in t.free():
            t.rows[k]["value"] = t.rows[k][op + "value"]
    elif op == "best":
        if "best" not in m.pf.columns:
            with rejects(ValueError):
                m.set_values("best")
    elif op == "cap":
        cap = abs(v) + 1
        m.set_cap(cap)
        for r in t.rows.values():
            lo, hi = max(r["minimum"], -cap), min(r["maximum"], cap)
            if lo <= hi:
                r["minimum"], r["maximum"] = lo, hi
    elif op == "shift":
        s = [VALS[(b + i) % len(VALS)] for i in range(len(names))]
        m.shift_values(np.array(s))
        for k, x in zip(names, s):
            if not t.rows[k]["holdfast"]:
                t.rows[k]["value"] = t.rows[k]["value"] + x
    elif op == "term":
        name = (NAMES + NEW)[a % (len(NAMES) + len(NEW))]
        if c % 2:
            m.utility_co[2] = m.utility_co[2] + P(name) * X("inc")
        else:
            m.utility_ca = m.utility_ca + P(name) * X("time")
        t.rows.setdefault(name, fresh())
        t.used.add(name)
    elif op == "new":
        name = NEW[a % len(NEW)]
        m.set_value(name, v)
        if name not in t.rows:
            t.rows[name] = fresh(v)
        t.rows[name]["value"] = v
        got = float(m.pf.loc[name, "initvalue"])
        require(got in (t.rows[name]["initvalue"], v), "initial value of", name, "is", got)
        t.rows[name]["initvalue"] = got
        ctx.label("a parameter set before it is used" if name not in t.used else "set")
    elif op == "sort":
        m.pf_sort()
    elif op == "frame":
        f = m.pf.copy()
        f.loc[n, "value"] = v
        f.loc[n, "holdfast"] = c % 2
        m.set_frame(f)
        t.rows[n].update(value=v, holdfast=c % 2)
    elif op == "pickle":
        m = pickle.loads(pickle.dumps(m))
    elif op == "bad_len":
        with rejects(ValueError):
            m.set_values([1.0] * (len(names) + 1 + c % 2))
    elif op == "nan":
        free = t.free()
        if free:
            arr = [1.5] * len(names)
            arr[names.index(free[c % len(free)])] = np.nan
            with rejects(ValueError):
                m.set_values(arr)
    elif op == "unknown":
        m.set_values({"no such parameter": 3.0, n: v})
        if not t.rows[n]["holdfast"]:
            t.rows[n]["value"] = v
    elif op == "prune":
        m.remove_unused_parameters(verbose=False)
        t.rows = {k: r for k, r in t.rows.items() if k in t.used}
    return m


def ask(m, t, op, a, b, c):
    from larch.roles import P
    names = t.names
    n, n2 = names[a % len(names)], names[b % len(names)]
    r = t.rows
    m.pf    # a model that has just been written has not collected its parameters yet
    if op == "read":
        equal(float(m.get_value(n)), r[n]["value"], "get_value")
        equal(float(m.get_value(P(n))), r[n]["value"], "get_value of a reference")
        equal(m.get_value("nobody", default=7), 7, "get_value with a default")
        with rejects(KeyError):
            m.get_value("nobody")
        equal(int(m.get_holdfast(n)), r[n]["holdfast"], "get_holdfast")
        equal(float(m[n]["value"]), r[n]["value"], "item")
        equal(list(m.pvals), [r[k]["value"] for k in names], "pvals")
        equal(list(m.pnames), names, "pnames")
        equal(list(m.pbounds.lb), [r[k]["minimum"] for k in names], "lower bounds")
        equal(list(m.pbounds.ub), [r[k]["maximum"] for k in names], "upper bounds")
        x = m.get_values()
        x.iloc[:] = 99.0
        y = m.pvals
        y[:] = 98.0
    elif op == "expr":
        u, w = r[n]["value"], r[n2]["value"]
        close(m.pvalue(P(n) + P(n2) * 2), u + 2 * w, what="value of a sum")
        close(m.pvalue(P(n) - P(n2)), u - w, what="value of a difference")
        if w:
            close(m.pvalue(P(n) / P(n2)), u / w, what="value of a ratio")
        equal(m.pvalue(3.5), 3.5, "value of a number")
        got = m.pvalue({"x": n, "y": P(n2)})
        equal({k: float(x) for k, x in got.items()}, {"x": u, "y": w}, "values of a dict")
        equal(m.pvalue("nobody", default_value=4), 4, "value with a default")
    elif op == "slot":
        equal(m.get_slot_x(n), names.index(n), "slot")
        equal(m.get_slot_x(n, True), -1 if r[n]["holdfast"] else names.index(n), "slot of free parameters")
        equal(m.get_slot_x("nobody"), -1, "slot of nothing")
    elif op in ("order", "summary"):
        order = ORDERS[c % len(ORDERS)]
        m.ordering = order
        f = m.pfo()
        if not order:
            equal(list(f.index), names, "order without categories")
        else:
            left, want = set(names), []
            for cat in order:
                for pat in cat[1:]:
                    hit = sorted(k for k in left if re.match(pat, k))
                    want += [(cat[0], k) for k in hit]
                    left -= set(hit)
            want += [("Other", k) for k in sorted(left)]
            equal([tuple(i) for i in f.index], want, "categories")
        last = [i[-1] if isinstance(i, tuple) else i for i in f.index]
        equal(list(f["value"]), [r[k]["value"] for k in last], "values by category")
        if op == "summary":
            s = m.parameter_summary().data
            for k, x in zip(last, s["Value"]):
                x = float(str(x).replace("\u00a0", "").replace(" ", ""))
                require(abs(x - r[k]["value"]) <= 0.005 * abs(r[k]["value"]) + 1e-12, "summary of", k, x, r[k]["value"])


@check("P08", history(), quick=1600)
def table(spec, ctx):
    import larch
    from larch.roles import P, X
    m = larch.Model(alts=[1, 2, 3])
    for i, k in enumerate(spec["start"]):
        if i % 2:
            m.utility_co[2] = m.utility_co[2] + P(k) * X("inc")
        else:
            m.utility_ca = m.utility_ca + P(k) * X("time")
    t = Table(spec["start"])
    t.used = set(spec["start"])
    edits = asks = 0
    for i, (op, a, b, c) in enumerate(spec["ops"]):
        what = f"after step {i + 1} ({op})"
        ctx.label(op)
        if op in ("read", "expr", "order", "slot", "summary"):
            asks += 1
            ask(m, t, op, a, b, c)
        elif op == "batch":
            with m.batch_update():
                m = m
                for j in range(1 + a % 3):
                    edit(m, t, ["set", "lock", "dict", "shift"][(b + j) % 4], a + j, b + j, c + j, ctx)
            edits += 1
        else:
            m = edit(m, t, op, a, b, c, ctx)
            edits += 1
        if op != "term" or c % 3:
            same(m, t, what)
    same(m, t, "at the end")
    ctx.nontrivial(edits >= 3)
