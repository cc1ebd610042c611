"""Latent class models: a mixture of class models with their own parameters, weighted by class membership."""
import copy
import numpy as np
from hypothesis import strategies as st
from vt.core import check, require, equal, close
from vt import choice as C

byte = st.integers(0, 255)
latent = st.fixed_dictionaries({
    "m": C.model_spec(nests="maybe", quantity="maybe", max_cases=5, max_alts=4),
    "classes": st.lists(st.tuples(byte, byte, st.booleans()), min_size=1, max_size=3),
    "member": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(-4, 4)), max_size=4),
    "fmt": st.sampled_from(["ca", "ce"]), "how": st.sampled_from(["direct", "load"]), "autoscale": st.booleans(),
    "part": st.tuples(st.integers(0, 4), st.integers(0, 5), st.integers(1, 3)), "again": st.integers(0, 3)})


def classes(spec, ctx):
    """A specification for each class, and one for membership; all with all values."""
    s = spec["m"]
    base = C.params(s)
    out, values = [], {}
    for k, (own, drop, flat) in enumerate(spec["classes"]):
        t = copy.deepcopy(s)
        names = {p: f"{p}_{k + 1}" if own >> (i % 8) & 1 else p for i, p in enumerate(base)}
        t["uca"] = [[names[p], x, f] for i, (p, x, f) in enumerate(s["uca"]) if not drop >> (i % 8) & 1]
        t["uco"] = {a: [[names[p], x, f] for p, x, f in u] for a, u in s["uco"].items()}
        t["qca"] = [[names[p], x] for p, x in s["qca"]]
        t["theta"] = names[s["theta"]] if s["theta"] else None
        t["nests"] = [] if flat else [[c, names[m], kids] for c, m, kids in s["nests"]]
        if not t["uca"] and not any(t["uco"].values()):
            t["uca"] = [["only%d" % (k + 1), list(s["ca"])[0], 1.0]]
            values["only%d" % (k + 1)] = 0.4 - 0.3 * k
        for p, q in names.items():
            v = s["values"][p]
            if q != p:
                v = v * (0.9 - 0.2 * k) if p in {m for _, m, _ in s["nests"]} | {s["theta"]} else v + 0.3 * (k + 1)
            values[q] = v
        out.append(t)
    K = len(out)
    n = len(s["caseids"])
    co = list(s["co"])
    member = {k: [] for k in range(2, K + 1)}
    for a, b, v in spec["member"]:
        if K < 2:
            break
        k = 2 + a % (K - 1)
        name = "shared" if b == 5 and base else f"w{k}_{b}"
        if b == 5 and base:
            name = [p for p in base if p not in {m for _, m, _ in s["nests"]} | {s["theta"]} | {q for q, _ in s["qca"]}][:1]
            if not name:
                continue
            name = name[0]
            ctx.label("parameter of membership and of classes")
            values.setdefault(name, s["values"][name])
        else:
            values[name] = v / 4
        member[k].append([name, None if b % 2 == 0 else co[b % len(co)], 1.0])
    top = {"alts": list(range(1, K + 1)), "caseids": s["caseids"], "co": s["co"], "ca": {}, "av": None, "ch": [[0.0] * K] * n, "wt": None,
           "uca": [], "uco": {k: t for k, t in member.items() if t}, "qca": [], "theta": None, "nests": [], "values": values}
    used = set(C.params(top)).union(*[C.params(t) for t in out])
    values = {p: values[p] for p in sorted(used)}
    for t in out + [top]:
        t["values"] = values
    return out, top, values


def mixture(models, top, values):
    w = C.ref(top, values)["P"]
    return sum(w[:, k][:, None] * C.ref(t, values)["P"] for k, t in enumerate(models)), w


@check("P21", latent, quick=600)
def mixtures(spec, ctx):
    """Probabilities, log likelihood and derivatives are those of the mixture."""
    import larch
    from larch.model.latentclass import LatentClassModel
    from larch.model import persist_flags as pf
    s = spec["m"]
    models, top, values = classes(spec, ctx)
    K = len(models)
    ctx.label(f"{K} classes", spec["fmt"], spec["how"], *C.labels(s))
    d = C.dataframes(s, spec["fmt"])
    km = larch.Model()
    for k, terms in top["uco"].items():
        C.define(km, dict(top, uco={k: terms}))
    if not top["uco"] or spec["how"] == "direct":
        km.initialize_graph(alternative_codes=list(range(1, K + 1)))
    ms = {}
    for k, t in enumerate(models):
        if spec["how"] == "direct":
            m = larch.Model()
            C.define(m, t)
            m.initialize_graph(alternative_codes=list(t["alts"]))
            C.add_nests(m, t)
        else:
            m = larch.Model(dataservice=d)
            C.define(m, t)
            C.add_nests(m, t)
        ms[k + 1] = m
    lc = LatentClassModel(km, ms)
    if spec["how"] == "direct":
        lc.dataframes = d
    else:
        lc.load_data(autoscale_weights=spec["autoscale"])
    equal(sorted(lc.pf.index), sorted(values), "parameters")
    rounds = [values]
    if spec["again"]:
        rounds.append({p: v + 0.1 * ((i + spec["again"]) % 3) if "mu" not in p and "theta" not in p else v * 0.9 for i, (p, v) in enumerate(values.items())})
    names = list(lc.pf.index)
    order = C.case_order(s)
    n = len(order)
    for rnd, val in enumerate(rounds):
        if rnd == 0:
            lc.set_values(**val)
            x = None
        else:
            x = [val[p] for p in names]
            ctx.label("other values")
        P, w = mixture(models, top, val)
        ch = np.array(s["ch"])
        wt = np.ones(n) if s["wt"] is None else np.array(s["wt"])
        with np.errstate(all="ignore"):
            ll = float(np.where(ch > 0, ch * np.log(P), 0).sum(1) @ wt)
        o = C.in_order(ms[1], s)
        pr = lc.probability(x)
        close(pr[:, o], P[order], what="probability")
        close(lc.probability(return_dataframe=True)[s["alts"]].values, P[order], what="table of probabilities")
        close(lc.class_membership_probability().values, w[order], what="class membership")
        close(lc.loglike(x), ll, what="loglike")
        ln = lambda v: np.where(P > 0, np.log(np.where(P > 0, mixture(models, top, v)[0], 1)), 0.0)
        g = C.central(ln, val, names)
        cw = ch * wt[:, None]
        dll = np.einsum("cj,cjk->k", cw, g)
        tol = dict(rtol=1e-6, atol=1e-7)
        close(lc.d_probability(x)[:, o], (g * P[:, :, None])[order], what="d_probability", **tol)
        q = lc.loglike2(x)
        close(q.ll, ll, what="ll of loglike2")
        close(np.asarray(q.dll), dll, what="dll", **tol)
        close(np.asarray(lc.d_loglike(x)), dll, what="d_loglike", **tol)
        b = lc.loglike2_bhhh(x)
        close(b.ll, ll, what="ll of loglike2_bhhh")
        close(np.asarray(b.dll), dll, what="dll of loglike2_bhhh", **tol)
        close(np.asarray(b.bhhh), np.einsum("cj,cjk,cjl->kl", cw, g, g), what="bhhh", rtol=1e-6, atol=1e-6)
        a0, a1, step = spec["part"]
        a0 = min(a0, n - 1)
        a1 = min(a0 + 1 + a1, n)
        sl = order[a0:a1:step]
        if len(sl) < n:
            ctx.label("some of the cases")
            pl = np.where(ch > 0, ch * ln(val), 0).sum(1) * wt
            close(lc.probability(start_case=a0, stop_case=a1, step_case=step)[:, o], P[sl], what="probability of some cases")
            close(lc.loglike(start_case=a0, stop_case=a1, step_case=step), pl[sl].sum(), what="loglike of some cases")
            q = lc.loglike2(start_case=a0, stop_case=a1, step_case=step)
            close(q.ll, pl[sl].sum(), what="ll of some cases")
            close(np.asarray(q.dll), np.einsum("cj,cjk->k", cw[sl], g[sl]), what="dll of some cases", **tol)
        for p in names:
            close(float(lc.pf.loc[p, "value"]), val[p], what=f"value of {p}")
    ctx.nontrivial(K > 1 and any(C.nontrivial(t) for t in models) and n > 0)
