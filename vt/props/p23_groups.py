"""Model groups: models with their own data that share parameters by name."""
import numpy as np
from hypothesis import strategies as st
from vt.core import check, require, equal, close
from vt import choice as C

byte = st.integers(0, 255)
op = st.one_of(
    st.tuples(st.just("values"), st.lists(st.tuples(byte, byte), min_size=1, max_size=3)),
    st.tuples(st.just("give"), st.tuples(st.sampled_from(["array", "dict", "null"]), byte)),
    st.tuples(st.just("member"), st.tuples(byte, byte)),
    st.tuples(st.just("add"), st.booleans()),
    st.tuples(st.just("drop"), byte),
    st.tuples(st.just("null"), st.just(0)))


def groups(engine):
    return st.fixed_dictionaries({
        "members": st.lists(C.model_spec(nests="maybe", quantity="maybe", max_cases=4, max_alts=4), min_size=1, max_size=3),
        "engine": engine, "fmt": st.sampled_from(["ca", "ce"]), "autoscale": st.booleans(),
        "start": st.integers(1, 3), "nested": st.booleans(), "ops": st.lists(op, max_size=6)})


def total(specs, values):
    return sum(C.ref(s, values)["ll"] for s in specs)


def gradient(specs, values, names):
    return C.central(lambda v: total(specs, v), values, names)


def build(s, spec):
    if spec["engine"] == "numba":
        return C.numba(s, via="df", fmt=spec["fmt"])
    return C.legacy(s, spec["fmt"], spec["engine"], autoscale=spec["autoscale"])


class Group:
    def __init__(self, spec, ctx):
        from larch.model.model_group import ModelGroup
        self.spec, self.ctx = spec, ctx
        self.specs = list(spec["members"])
        k = min(spec["start"], len(self.specs))
        self.rest = self.specs[k:]
        self.specs = self.specs[:k]
        self.models = [build(s, spec) for s in self.specs]
        if spec["nested"] and k > 1:
            ctx.label("group of groups")
            self.g = ModelGroup([ModelGroup(self.models[:-1]), self.models[-1]])
        else:
            self.g = ModelGroup(self.models)
        self.values = {}
        self.learn()

    def learn(self):
        """Parameters take the values of the first member that has them."""
        for s in self.specs:
            for p in C.params(s):
                self.values.setdefault(p, s["values"][p])

    def judge(self, what):
        g, v, specs = self.g, self.values, self.specs
        require(len(g) == len(specs), "number of members")
        if not specs:
            return
        q = g.loglike2()
        close(q.ll, total(specs, v), what=what + "ll of loglike2")
        equal(sorted(g.pf.index), sorted(v), what + "parameters")
        names = list(g.pf.index)
        close(g.pf.value.values, [v[p] for p in names], what=what + "values")
        equal(list(q.dll.index), names, what + "index of dll")
        tol = dict(rtol=1e-6, atol=1e-7)
        dll = gradient(specs, v, names)
        close(q.dll.values, dll, what=what + "dll", **tol)
        close(g.loglike(), total(specs, v), what=what + "loglike")
        close(np.asarray(g.d_loglike()), dll, what=what + "d_loglike", **tol)
        equal(g.n_cases, sum(len(s["caseids"]) for s in specs), what + "n_cases")
        for m, s in zip(g, specs):
            close(m.pf.value.values, [v[p] for p in m.pf.index], what=what + "values of a member")
            close(m.loglike(), C.ref(s, v)["ll"], what=what + "loglike of a member")

    def some(self, seed):
        out = {}
        for i, p in enumerate(sorted(self.values)):
            x = (seed >> (i % 5)) % 7
            out[p] = C.MUVAL[x % 6] if p.startswith("mu") or p == "theta" else x / 4 - 0.75
        return out

    def run(self, name, arg):
        g = self.g
        if name == "values":
            names = sorted(self.values)
            new = {names[i % len(names)]: self.some(x)[names[i % len(names)]] for i, x in arg}
            g.set_values(**new)
            self.values.update(new)
        elif name == "give" and self.specs:
            kind, seed = arg
            if kind == "null":
                self.values = {p: 1.0 if p.startswith("mu") or p == "theta" else 0.0 for p in self.values}
                close(g.loglike("null"), total(self.specs, self.values), what="loglike of null values")
                return
            self.values = self.some(seed)
            g.unmangle()
            x = dict(self.values) if kind == "dict" else np.array([self.values[p] for p in g.pf.index])
            if seed % 2:
                close(g.loglike(x), total(self.specs, self.values), what="loglike of given values")
            else:
                close(g.loglike2(x).ll, total(self.specs, self.values), what="loglike2 of given values")
        elif name == "member" and self.specs:
            # a member is asked for other values in between; the group keeps its own
            i, seed = arg
            m, s = g[i % len(g)], self.specs[i % len(g)]
            v = self.some(seed)
            close(m.loglike({p: v[p] for p in C.params(s)}), C.ref(s, v)["ll"], what="loglike of a member at other values")
        elif name == "add" and self.rest:
            s = self.rest.pop(0)
            g.append(build(s, self.spec)) if arg else g.insert(0, build(s, self.spec))
            self.specs = self.specs + [s] if arg else [s] + self.specs
            self.learn()
        elif name == "drop" and len(self.specs) > 1:
            i = arg % len(self.specs)
            del g[i]
            self.rest.append(self.specs.pop(i))
        elif name == "null" and self.specs:
            g.unmangle()
            null = {p: 1.0 if p.startswith("mu") or p == "theta" else 0.0 for p in self.values}
            close(g.loglike_null(), total(self.specs, null), what="loglike_null")
        else:
            return
        self.ctx.label(name)
        self.judge(f"after {name}: ")


def group_history(spec, ctx):
    """Value, derivatives and parameters are those of all members together, at any time."""
    g = Group(spec, ctx)
    ctx.label(spec["engine"], f"{len(g.specs)} members")
    names = [set(C.params(s)) for s in g.specs]
    ctx.nontrivial(len(names) > 1 and bool(set.intersection(*names)) and len(set.union(*names)) > len(names[0]) and any(C.nontrivial(s) for s in g.specs))
    g.judge("at first: ")
    for name, arg in spec["ops"]:
        g.run(name, arg)


@check("P23", groups(st.sampled_from(["direct", "load"])), quick=400)
def legacy_groups(spec, ctx):
    group_history(spec, ctx)


@check("P23", groups(st.just("numba")), quick=120, numba=True)
def numba_groups(spec, ctx):
    group_history(spec, ctx)


halves = st.fixed_dictionaries({"m": C.model_spec(nests="no", quantity="no", max_cases=9, max_alts=4), "cut": byte, 
                                "fmt": st.sampled_from(["ca", "ce"]), "how": st.sampled_from(["direct", "load"]), "cap": st.sampled_from([2, 5])})


def part(s, rows):
    """The specification with these cases only."""
    t = dict(s)
    for k in ("av", "ch"):
        t[k] = None if s[k] is None else [s[k][i] for i in rows]
    for k in ("caseids", "wt"):
        t[k] = None if s[k] is None else [s[k][i] for i in rows]
    for k in ("co", "ca"):
        t[k] = {n: [v[i] for i in rows] for n, v in s[k].items()}
    return t


@check("P23", halves, quick=160)
def divided(spec, ctx):
    """Data in two members are estimated as the same data in one model."""
    from larch.model.model_group import ModelGroup
    s = spec["m"]
    n = len(s["caseids"])
    if n < 2:
        return
    k = 1 + spec["cut"] % (n - 1)
    one = C.legacy(s, spec["fmt"], spec["how"])
    parts = [part(s, range(k)), part(s, range(k, n))]
    two = ModelGroup([C.legacy(t, spec["fmt"], spec["how"]) for t in parts])
    two.unmangle()
    two.set_values(**s["values"])
    ctx.nontrivial(C.nontrivial(s))
    names = list(two.pf.index)
    for m in (one, two):
        m.set_cap(spec["cap"])
    a, b = one.maximize_loglike(quiet=True), two.maximize_loglike(quiet=True)
    x = dict(zip(names, two.pf.value.values))
    close(b.loglike, C.ref(s, x)["ll"], what="loglike of the estimate", rtol=1e-6, atol=1e-7)
    equal(b.n_cases, n, "n_cases")
    require(b.loglike > C.ref(s)["ll"] - 1e-6 or any(abs(v) > spec["cap"] for v in s["values"].values()), "the estimate is worse than the start")
    close(b.loglike, a.loglike, what="loglike of both estimates", rtol=1e-3, atol=1e-3)
    one.set_values(**x)
    close(one.pf.value[names].values, [x[p] for p in names], what="values")
    with np.errstate(all="ignore"):
        g = np.asarray(one.d_loglike())
        one.calculate_parameter_covariance(like_ratio=False)
        two.calculate_parameter_covariance(like_ratio=False)
    H = -np.array(C.central(lambda v: gradient([s], v, names), x, names, h=1e-3))
    free = [i for i, p in enumerate(names) if abs(abs(x[p]) - spec["cap"]) > 1e-6]
    if len(free) < len(names) or np.linalg.cond(H) > 1e4 or np.linalg.eigvalsh(H).min() < 0.01:
        ctx.label("at a bound" if len(free) < len(names) else "ill-conditioned")
        return
    ctx.label("standard errors")
    V = np.linalg.inv(H)
    close(two.pf["std_err"].values, np.sqrt(np.diag(V)), what="standard errors", rtol=1e-3)
    close(two.pf["std_err"].values, one.pf["std_err"][names].values, what="standard errors of both", rtol=1e-3)
