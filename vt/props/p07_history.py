"""Sequences of operations on one model: every answer is that of a model built anew
with the same specification, data and parameter values."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, close, require, equal
from vt import choice as C
from vt.gen import GRID

OPS = ["set", "set", "dict", "array", "null", "init", "best", "hold", "free", "data", "term", "cut", "lock",
       "ll", "ll", "ll", "llx", "range", "range", "fold", "fold", "dll", "casewise", "bhhh", "prob", "prob", "probx", "utility",
       "utilityx", "logsum", "logsumx", "llnull", "keep"]


@st.composite
def history(draw, nests, engine):
    m = draw(C.model_spec(nests=nests, max_cases=6))
    n = draw(st.integers(3, 14))
    b = draw(st.binary(min_size=4 * n, max_size=4 * n))
    ops = [[OPS[b[4 * i] % len(OPS)], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]] for i in range(n)]
    return {"m": m, "ops": ops, "via": draw(st.sampled_from(["ds", "ds", "df"])) if engine == "numba" else "direct",
            "fmt": draw(st.sampled_from(["ca", "ce"])) if engine == "compiled" else "ca",
            "threads": draw(st.sampled_from([1, 2, 3]))}


def other_data(s, a, b):
    """The same alternatives and variables, with other cases and other numbers."""
    n, J = len(s["caseids"]), len(s["alts"])
    keep = [i for i in range(n) if (a >> (i % 8)) & 1] or [a % n]
    f = [0.5, 2.0, -1.0, 1.5][b % 4]
    t = dict(s)
    t["caseids"] = [s["caseids"][i] for i in keep]
    t["co"] = {k: [v[i] * f + (b // 4 % 3) for i in keep] for k, v in s["co"].items()}
    t["ca"] = {k: [[x * (abs(f) if k in C.QV else f) for x in v[i]] for i in keep] for k, v in s["ca"].items()}
    for k in ("av", "ch", "wt"):
        t[k] = [s[k][i] for i in keep] if s[k] is not None else None
    return t


class Shadow:
    """What the model should know."""
    def __init__(self, s):
        self.s = s
        self.values = dict(s["values"])
        self.hold = set()
        self.forget()
        self.init = {p: (1.0 if p.startswith("mu") or p == "theta" else 0.0) for p in C.params(s)}
        self.null = dict(self.init)

    def forget(self):
        self.evaluated = []     # values whose full log likelihood was asked for
        self.visited = []

    @property
    def names(self):
        return sorted(C.params(self.s))

    def spec(self):
        return {**self.s, "values": self.values}

    def set(self, d):
        for k, v in d.items():
            if k in self.values and k not in self.hold:
                self.values[k] = v

    def r(self):
        return C.ref(self.spec(), self.values)


def val(p, x):
    return C.MUVAL[x % 6] if p.startswith("mu") or p == "theta" else GRID[x % 16]


def select(n, op):
    """Range of cases: arguments and positions."""
    start = op[1] % (n + 2)
    stop = [-1, -1, op[2] % (n + 3), op[2] % (n + 3)][op[2] % 4]
    step = 1 + op[3] % 3
    return start, stop, step


def run(spec, ctx, engine):
    s = spec["m"]
    numba = engine == "numba"
    C_s = Shadow(s)
    ctx.label(*C.labels(s))
    if not numba:
        m = C.legacy(s, spec["fmt"], "direct", threads=spec["threads"])
    else:
        m = C.numba(s, spec["via"])
    kept = []
    asked = changed = 0
    sorted_cases = not numba or spec["via"] == "df"
    for op in spec["ops"]:
        kind, a, b, c = op
        names = C_s.names
        cur = C_s.spec()
        n = len(cur["caseids"])
        order = C.case_order(cur) if sorted_cases else slice(None)
        what = f"{kind} after {asked} answers and {changed} changes"
        p = names[a % len(names)]
        if kind in ("set", "dict"):
            d = {p: val(p, b)}
            if c % 2:
                q = names[c % len(names)]
                d[q] = val(q, c // 2)
            if kind == "set":
                m.set_values(**d)
            else:
                m.set_values(d)
            C_s.set(d)
            changed += 1
        elif kind == "array":
            x = dict(C_s.values)
            x[p] = val(p, b)
            m.set_values(np.array([x[q] for q in m.pf.index]))
            C_s.set(x)
            changed += 1
        elif kind in ("null", "init"):
            m.pf
            m.set_values(kind)
            C_s.set(C_s.null if kind == "null" else C_s.init)
            changed += 1
        elif kind == "best":
            if "best" in m.pf.columns:
                got = {q: float(m.pf.loc[q, "best"]) for q in names}
                require(any(all(abs(got[q] - v[q]) < 1e-9 for q in names) for v in C_s.visited), what,
                        "the best values", got, "were never evaluated with this data and specification")
                ll = C.ref(cur, got)["ll"]
                for v in C_s.evaluated:
                    require(ll >= C.ref(cur, v)["ll"] - 1e-6, what, "best values", got, "give", ll, "but", v, "give", C.ref(cur, v)["ll"])
                m.set_values("best")
                C_s.set(got)
            else:
                require(not C_s.evaluated, what, "no best values are recorded after", C_s.evaluated)
        elif kind in ("hold", "free"):
            m.pf.loc[p, "holdfast"] = 1 if kind == "hold" else 0
            (C_s.hold.add if kind == "hold" else C_s.hold.discard)(p)
        elif kind == "lock":
            v = val(p, b)
            if b % 2:
                m.lock_value(p, v)
            else:
                m.lock_values(**{p: v})
            C_s.values[p] = C_s.init[p] = C_s.null[p] = v
            C_s.hold.add(p)
            changed += 1
        elif kind == "data":
            if numba and spec["via"] == "ds":
                C_s.s = {**C_s.s, **{k: v for k, v in other_data(C_s.s, a, b).items()}}
                m.datatree = C.dataset(C_s.s)
            else:
                C_s.s = {**C_s.s, **{k: v for k, v in other_data(C_s.s, a, b).items()}}
                m.dataframes = C.dataframes(C_s.s, spec["fmt"])
            C_s.forget()
            changed += 1
        elif kind == "term":
            # another term in the utility of an alternative
            from larch.roles import P, X
            alt = cur["alts"][a % len(cur["alts"])]
            var = list(cur["co"])[b % len(cur["co"])] if b % 3 else None
            q = C.BETA[c % 5]
            m.utility_co[alt] = m.utility_co[alt] + (P(q) * X(var) if var else P(q))
            uco = {k: list(v) for k, v in C_s.s["uco"].items()}
            uco.setdefault(alt, []).append([q, var, 1.0])
            C_s.s = {**C_s.s, "uco": uco}
            if q not in C_s.values:
                C_s.values[q] = C_s.init[q] = C_s.null[q] = 0.0
            C_s.forget()
            m.unmangle()
            changed += 1
        elif kind == "cut":
            # drop the utility of cases of one alternative; its parameters stay in the table
            alts = sorted(C_s.s["uco"])
            if alts and (len(alts) > 1 or C_s.s["uca"]):
                alt = alts[a % len(alts)]
                gone = {t[0] for t in C_s.s["uco"][alt]}
                uco = {k: v for k, v in C_s.s["uco"].items() if k != alt}
                t = {**C_s.s, "uco": uco}
                if gone <= set(C.params(t)):
                    m.utility_co[alt] = 0 if b % 2 else type(m.utility_co[alt])()
                    C_s.s = t
                    C_s.forget()
                    changed += 1
        else:
            asked += 1
            x = None
            if kind.endswith("x"):
                x = {p: val(p, b)}
                C_s.set(x)
                if c % 2:
                    x = np.array([{**C_s.values, **x}[q] if q not in C_s.hold else 0.0 for q in m.pf.index])
            r = C_s.r()
            o = C.in_order(m, cur)
            full = False
            if kind in ("ll", "llx"):
                close(m.loglike(x), r["ll"], what=what)
                full = True
            elif kind == "range":
                start, stop, step = select(n, op)
                args = dict(start_case=start, step_case=step)
                sl = slice(start, None if stop == -1 else stop, step)
                if stop != -1:
                    args["stop_case"] = stop
                elif not numba:
                    args["stop_case"] = -1
                part = r["llc"][order][sl]
                close(m.loglike(**args), part.sum(), what=what + f" {args}")
                q = m.loglike2(**args)
                close(q.ll, part.sum(), what=what + f" loglike2 {args}")
                full = start == 0 and stop == -1 and step == 1 and not numba
            elif kind == "fold":
                k = 2 + a % 3
                f = b % k
                rows = np.arange(n) % k
                arg = {"leave_out": f} if c % 2 else {"keep_only": f}
                mask = rows != f if c % 2 else rows == f
                want = r["llc"][order][mask].sum()
                close(m.loglike(subsample=k, **arg), want, what=what + f" {arg} of {k}")
                q = m.loglike2(subsample=k, **arg)
                close(q.ll, want, what=what + f" loglike2 {arg} of {k}")
                q = m.loglike2_bhhh(subsample=k, **arg)
                close(q.ll, want, what=what + f" loglike2_bhhh {arg} of {k}")
                d = dll(C_s, order)
                close(np.asarray(q.dll), d[mask].sum(0), rtol=1e-6, atol=1e-6, what=what + f" derivative {arg} of {k}")
                close(np.asarray(m.d_loglike(subsample=k, **arg)), d[mask].sum(0), rtol=1e-6, atol=1e-6,
                      what=what + f" d_loglike {arg} of {k}")
                if n > 1:
                    # a fold within a range: of the same cases as without the range
                    first = 1 + (a // 3 + b // 4) % (n - 1)
                    step = 1 + c // 2 % 2
                    part = np.zeros(n, dtype=bool)
                    part[first::step] = True
                    arg.update(start_case=first, step_case=step)
                    if not numba:
                        arg["stop_case"] = -1
                    close(m.loglike(subsample=k, **arg), r["llc"][order][mask & part].sum(), what=what + f" {arg} of {k}")
                    close(np.asarray(m.loglike2(subsample=k, **arg).dll), d[mask & part].sum(0), rtol=1e-6, atol=1e-6,
                          what=what + f" derivative {arg} of {k}")
            elif kind == "dll":
                close(np.asarray(m.d_loglike()), dll(C_s, order).sum(0), rtol=1e-6, atol=1e-6, what=what)
            elif kind == "casewise":
                if numba:
                    close(m.loglike_casewise(), r["llc"][order], what=what)
                else:
                    from larch.model.persist_flags import PERSIST_LOGLIKE_CASEWISE as F
                    close(m.loglike(persist=F).ll_casewise, r["llc"][order], what=what)
            elif kind == "bhhh":
                q = m.loglike2_bhhh()
                close(q.ll, r["ll"], what=what)
                full = True
            elif kind in ("prob", "probx"):
                got = m.probability(x)
                got = got[:, o]
                close(got, r["P"][order], what=what)
                if not c % 3:
                    start, stop, step = select(n, op)
                    args = dict(start_case=start, step_case=step)
                    if stop != -1:
                        args["stop_case"] = stop
                    sl = slice(start, None if stop == -1 else stop, step)
                    if numba:
                        close(m.probability(**args)[:, o], r["P"][order][sl], what=what + f" {args}")
            elif kind in ("utility", "utilityx"):
                close(m.utility(x)[:, o], r["U"][order], what=what)
            elif kind in ("logsum", "logsumx"):
                close(m.logsums(x), r["logsum"][order], what=what)
            elif kind == "llnull":
                before = dict(C_s.values)
                nul = {**before, **{q: v for q, v in C_s.null.items() if q not in C_s.hold}}
                want = C.ref(cur, nul)["ll"]
                close(m.loglike_null(use_cache=False) if a % 3 == 0 else m.loglike_null(), want, what=what)
                C_s.visited.append(nul)
                close([m.get_value(q) for q in names], [before[q] for q in names], what=what + " restores the values")
            elif kind == "keep":
                g = [m.probability, m.utility, m.logsums, lambda: np.asarray(m.loglike2().dll)][a % 4]
                got = g()
                kept.append((kind, got, np.array(got, copy=True)))
            C_s.visited.append(dict(C_s.values))
            if full:
                C_s.evaluated.append(dict(C_s.values))
        for _, got, copy in kept:
            equal(np.asarray(got), copy, what + ": an array returned earlier")
        if changed and asked:
            ctx.nontrivial(C.nontrivial(cur))
        # the table holds the values in use
        for q in C_s.names:
            close(m.pf.loc[q, "value"], C_s.values[q], what=f"value of {q} after {what}")
    ctx.label(f"{min(asked, 6)} answers")


def dll(S, order):
    s = S.spec()
    names = S.names
    lp = lambda v: np.where(np.isfinite(C.ref(s, v)["logP"]), C.ref(s, v)["logP"], 0.0)
    d = C.central(lp, S.values, names)
    r = C.ref(s)
    w = r["ch"] * r["wt"][:, None]
    free = np.array([q not in S.hold for q in names], dtype=float)
    return (np.einsum("cj,cjk->ck", w, d))[order] * free


@check("P07", st.one_of(history("no", "compiled"), history("yes", "compiled")), quick=1200)
def compiled_engine(spec, ctx):
    run(spec, ctx, "compiled")


@check("P07", st.one_of(history("no", "numba"), history("yes", "numba")), quick=500, numba=True)
def numba_engine(spec, ctx):
    run(spec, ctx, "numba")


@st.composite
def large_case(draw):
    return {"n": draw(st.integers(100, 600)), "threads": draw(st.integers(2, 8)), "seed": draw(st.integers(0, 10 ** 6)),
            "nests": draw(st.booleans()), "casewise": draw(st.booleans())}


@check("P07", large_case(), quick=16)
def asked_again(spec, ctx):
    """The same question gives the very same number, whatever the timing of the threads."""
    import larch
    from larch.roles import P, X
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    ca = pd.DataFrame({"x": rng.normal(size=3 * n)}, index=pd.MultiIndex.from_product([range(n), [1, 2, 3]], names=["c", "a"]))
    ch = pd.DataFrame(np.eye(3)[rng.integers(3, size=n)], index=pd.RangeIndex(n, name="c"), columns=[1, 2, 3])
    m = larch.Model()
    m.utility_ca = P.b * X.x
    if spec["nests"]:
        m.initialize_graph(alternative_codes=[1, 2, 3])
        m.graph.new_node(parameter="mu", children=[1, 2], name="nest")
    m.dataservice = larch.DataFrames(data_ca=ca, data_ch=ch, data_av=(ch * 0 + 1).astype(np.int8), alt_codes=[1, 2, 3])
    m.load_data()
    m.n_threads = spec["threads"]
    v = {"b": 0.83}
    if spec["nests"]:
        v["mu"] = 0.61
    m.set_values(v)
    ctx.label("nested" if spec["nests"] else "mnl")
    ctx.nontrivial()
    first = m.loglike()
    for _ in range(25):
        m.set_values(b=0.5)
        m.loglike()
        m.set_values(b=0.83)
        again = m.loglike()
        require(again == first, "the log likelihood of the same model and values is", repr(first), "and then", repr(again))


# ---- the expressions that define data roles are changed on a model that has been used ----

AVS = {"1": lambda d: d.x * 0 + 1, "z": lambda d: d.z, "1 - z": lambda d: 1 - d.z, "x > 0": lambda d: d.x > 0, "y > x": lambda d: d.y > d.x}
CHS = {"1": lambda d: d.x * 0 + 1, "w": lambda d: d.w, "w + z": lambda d: d.w + d.z}
WTS = {"w": lambda d: d.w, "w + 1": lambda d: d.w + 1, "2 - z": lambda d: 2 - d.z}
UTS = {"x": lambda d: d.x, "2 * x": lambda d: 2 * d.x, "x + y": lambda d: d.x + d.y, "y": lambda d: d.y, "x * z": lambda d: d.x * d.z}
change = st.tuples(st.sampled_from(["av", "av", "ch", "wt", "ut"]), st.integers(0, 11), st.integers(0, 11), st.integers(0, 11)).map(list)


@st.composite
def redefinition(draw, changes):
    n = draw(st.integers(2, 4))
    col = lambda g: [draw(st.sampled_from(g)) for _ in range(n)]
    return {"x": col([-1.0, 0.5, 1.0, 2.0]), "y": col([0.0, 1.5, -0.5]), "z": col([0.0, 1.0]), "w": col([0.5, 1.0, 3.0]),
            "ops": draw(st.lists(change, min_size=1, max_size=changes)), "edit": draw(st.booleans())}


def redefine(spec, ctx, numba):
    from larch.roles import P, X
    import larch
    d = pd.DataFrame({k: spec[k] for k in "xyzw"}, index=pd.RangeIndex(len(spec["x"]), name="c"))
    ctx.nontrivial(len({tuple(r) for r in d.values}) > 1 and len(spec["ops"]) > 1)
    alts = [1, 2, 3]
    b = {"b1": 0.3, "b2": -0.4, "b3": 0.8}
    now = {"av": {1: "1", 2: "1", 3: "z"}, "ch": {1: "1"}, "wt": None, "ut": {1: "x", 2: "y", 3: "x"}}
    if numba:
        from larch.numba import Model, Dataset
        m = Model(datatree=Dataset.construct.from_idco(d, alts=alts))
    else:
        m = larch.Model()
    for op in [None] + spec["ops"]:
        todo = ["av", "ch", "wt", "ut"] if op is None else [op[0]]
        if op is not None:
            kind, i, j, k = op
            pick = lambda pool, q: list(pool)[q % len(pool)]
            if kind == "av":
                now["av"] = {**now["av"], 2: pick(AVS, i), 3: pick(AVS, j)}
            elif kind == "ch":
                now["ch"] = {1: pick(CHS, i)}
            elif kind == "wt":
                now["wt"] = pick([None] + list(WTS), i)
            else:
                now["ut"] = {1: pick(UTS, i), 2: pick(UTS, j), 3: pick(UTS, k)}
        for role in todo:
            if role == "av":
                m.availability_co_vars = dict(now["av"])
            elif role == "ch":
                m.choice_co_vars = dict(now["ch"])
            elif role == "wt":
                m.weight_co_var = now["wt"]
            else:
                for a in alts:
                    m.utility_co[a] = P(f"b{a}") * X(now["ut"][a])
        if not numba:
            if m.dataservice is None:
                m.dataservice = larch.DataFrames(co=d, alt_codes=alts)
            m.load_data(autoscale_weights=False)
        elif op is not None and spec["edit"]:
            m.unmangle(True)
        m.set_values(**b)
        av = np.stack([np.asarray(AVS[now["av"][a]](d), dtype=float) for a in alts], 1) > 0
        u = np.stack([b[f"b{a}"] * np.asarray(UTS[now["ut"][a]](d), dtype=float) for a in alts], 1)
        e = np.where(av, np.exp(u), 0)
        pr = e / e.sum(1, keepdims=True)
        what = f"after {op} with {now}"
        close(np.asarray(m.probability())[:, [list(m.graph.standard_sort).index(a) for a in alts]], pr, what="probability " + what)
        wt = np.ones(len(d)) if now["wt"] is None else np.asarray(WTS[now["wt"]](d), dtype=float)
        close(m.loglike(), (wt * np.asarray(CHS[now["ch"][1]](d), dtype=float) * np.log(pr[:, 0])).sum(), what="log likelihood " + what)


@check("P07", redefinition(6), quick=300)
def redefined_compiled(spec, ctx):
    redefine(spec, ctx, False)


@check("P07", redefinition(3), quick=64, thorough=640, numba=True)
def redefined_numba(spec, ctx):
    redefine(spec, ctx, True)
