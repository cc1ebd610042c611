"""Estimation: what comes out of maximize_loglike, against the closed form and an independent optimizer."""
import logging
import warnings
import numpy as np
import scipy.optimize
from hypothesis import strategies as st
from vt.core import check, close, require, equal
from vt import choice as C
from vt.props.p03_mnl import note

LIM = 4.0


def rows_of(n, leave_out=-1, keep_only=-1, subsample=-1):
    k = np.arange(n)
    if subsample > 0 and leave_out >= 0:
        return k % subsample != leave_out
    if subsample > 0 and keep_only >= 0:
        return k % subsample == keep_only
    return np.ones(n, bool)


class Ref:
    """The log likelihood of the spec over some cases, in the order in which the model holds them."""

    def __init__(self, s, rows=None, order=None):
        self.s = s
        n = len(s["caseids"])
        keep = np.ones(n, bool)
        if rows is not None:
            keep[:] = False
            keep[np.arange(n)[order if order is not None else slice(None)][rows]] = True
        self.keep = keep

    def ll(self, v):
        return float(C.ref(self.s, v)["llc"][self.keep].sum())

    def grad(self, v, names):
        return C.central(lambda w: C.ref(self.s, w)["llc"][self.keep].sum(), v, names)


def concave(s):
    return not s["nests"] and not s["qca"]


def best_from(ref, x, names, lo, hi, cons=()):
    """The highest log likelihood that an independent optimizer finds from x, which is a dict."""
    free = [p for p in names if lo[p] < hi[p]]
    if not free:
        return ref.ll(x)
    f = lambda y: -ref.ll({**x, **dict(zip(free, y))})
    g = lambda y: -ref.grad({**x, **dict(zip(free, y))}, free)
    x0 = np.array([min(max(x[p], lo[p]), hi[p]) for p in free])
    bounds = [(lo[p], hi[p]) for p in free]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if cons:
            cs = [{"type": "ineq", "fun": lambda y, c=c: c({**x, **dict(zip(free, y))})} for c in cons]
            r = scipy.optimize.minimize(f, x0, jac=g, bounds=bounds, constraints=cs, method="SLSQP",
                                        options={"ftol": 1e-9, "maxiter": 60})
            if any(c["fun"](r.x) < -1e-9 for c in cs):
                return -np.inf
        else:
            r = scipy.optimize.minimize(f, x0, jac=g, bounds=bounds, method="L-BFGS-B", options={"ftol": 1e-10, "maxiter": 60})
    y = np.clip(r.x, [b[0] for b in bounds], [b[1] for b in bounds])
    return -float(f(y))


@st.composite
def spec_(draw, cv=False):
    m = draw(st.one_of(C.model_spec(nests="no", max_cases=12, max_alts=4, quantity="no"),
                       C.model_spec(nests="no", max_cases=12, max_alts=4, quantity="maybe"),
                       C.model_spec(nests="yes", max_cases=12, max_alts=4, quantity="no")))
    names = C.params(m)
    k = len(names)
    b = draw(st.binary(min_size=3 * k + 8, max_size=3 * k + 8))
    mus = [p for p in names if p.startswith("mu") or p == "theta"]
    for p in mus:
        m["values"][p] = [1.0, 0.9, 0.75, 0.5][b[names.index(p)] % 4]
    for p in names:
        m["values"][p] = max(min(m["values"][p], 2.0), -2.0)
    hold = [p for i, p in enumerate(names) if b[k + i] % 6 == 5]
    lims = {}
    for i, p in enumerate(names):
        if b[2 * k + i] % 4 == 3 and p not in mus:
            v = m["values"][p]
            lims[p] = [(v, LIM), (-LIM, v), (v - 0.5, v + 0.25), (v - 0.25, v + 1.0)][b[2 * k + i] // 4 % 4]
    cons = []
    free = [p for p in names if p not in hold]
    if draw(st.integers(0, 3)) == 3 and len(names) > 1:
        p, q = names[b[-1] % k], names[b[-2] % k]
        if p != q:
            if m["values"][p] > m["values"][q]:
                p, q = q, p
            cons.append([p, q])
    sub = draw(st.integers(2, 4))
    return {"m": m, "hold": hold, "lockvia": draw(st.booleans()), "lims": lims, "cons": cons,
            "cap": draw(st.sampled_from([True, True, True, False])),
            "method": draw(st.sampled_from([None, None, "bhhh", "slsqp", "SLSQP", "l-bfgs-b", "bfgs", "nelder-mead", "tnc",
                                            "trust-constr", "cobyla"])),
            "maxiter": draw(st.sampled_from([None, None, None, 1, 3])),
            "jumpstart": draw(st.sampled_from([0, 0, 0, 1])), "bhhh_start": draw(st.sampled_from([0, 0, 0, 2])),
            "fold": draw(st.sampled_from([None, None, None, "leave_out", "keep_only"])), "sub": sub, "at": b[-3] % sub,
            "fmt": draw(st.sampled_from(["ca", "ce"])), "autoscale": draw(st.booleans()),
            "how": draw(st.sampled_from(["direct", "load"])), "via": draw(st.sampled_from(["ds", "df"]))}


def setup(spec, m):
    s = spec["m"]
    names = C.params(s)
    v = s["values"]
    m.unmangle()
    if spec["cap"] or s["nests"] or s["qca"]:
        m.set_cap(LIM)
    for p in names:
        if p.startswith("mu") or p == "theta":
            # at their usual minimum of 0.001 probabilities are not representable
            m.pf.loc[p, "minimum"] = 0.1
    for p, (a, b) in spec["lims"].items():
        m.pf.loc[p, "minimum"], m.pf.loc[p, "maximum"] = a, b
    for p in spec["hold"]:
        if spec["lockvia"]:
            m.lock_value(p, v[p])
        else:
            m.pf.loc[p, "holdfast"] = 1
    if spec["cons"]:
        from larch.model.constraints import OrderingBound
        for p, q in spec["cons"]:
            m.constraints.append(OrderingBound(p, q))
    m.unmangle()
    for p in names:
        require(m.pf.value[p] == v[p], "value of", p)
    lo = {p: -np.inf if m.pf.minimum[p] == -np.inf else float(m.pf.minimum[p]) for p in names}
    hi = {p: np.inf if m.pf.maximum[p] == np.inf else float(m.pf.maximum[p]) for p in names}
    for p in spec["hold"]:
        lo[p] = hi[p] = v[p]
    return names, lo, hi


def run(spec, ctx, m, engine):
    s = spec["m"]
    note(s, ctx)
    v = dict(s["values"])
    names, lo, hi = setup(spec, m)
    fold = {}
    if spec["fold"]:
        fold = {spec["fold"]: spec["at"], "subsample": spec["sub"]}
        ctx.label(spec["fold"])
    n = len(s["caseids"])
    order = C.case_order(s) if engine == "legacy" or spec["via"] == "df" else None
    ref = Ref(s, rows_of(n, **fold), order)
    full = Ref(s)
    start = ref.ll(v)
    if not np.isfinite(start) or not np.isfinite(full.ll(v)):
        ctx.label("something chosen has no probability")
        return
    method = spec["method"]
    if method == "bfgs" and any(p.startswith("mu") or p == "theta" for p in names):
        method = "l-bfgs-b"  # one that knows of limits keeps these parameters where the model is defined
    opts = {}
    kw = dict(fold)
    if method is not None:
        kw["method"] = method
    if spec["maxiter"] is not None:
        kw["maxiter"] = spec["maxiter"]
        kw["options"] = opts
    bounded = method in (None, "slsqp", "SLSQP", "l-bfgs-b", "tnc", "trust-constr")
    if spec["bhhh_start"] and engine == "numba" and method in (None, "bhhh"):
        kw["bhhh_start"] = spec["bhhh_start"]
        ctx.label("bhhh start")
    if spec["jumpstart"] and engine == "legacy" and method in (None, "bhhh") and not fold:
        kw["jumpstart"] = 1
        kw["jumpstart_split"] = 2
        ctx.label("jumpstart")
    if spec["maxiter"] is None and method in ("trust-constr", "cobyla", "nelder-mead", "tnc"):
        kw["options"] = {"maxiter": 60} if method != "tnc" else {"maxfun": 60}
    ctx.label("method " + str(method))
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        r = m.maximize_loglike(quiet=True, **kw)
    if spec["maxiter"] is not None:
        equal(opts, {}, "the options given by the caller")
    x = {p: float(m.pf.value[p]) for p in names}
    require(all(np.isfinite(list(x.values()))), "estimates", x)
    for p in spec["hold"]:
        require(x[p] == v[p], "fixed parameter", p, "moved from", v[p], "to", x[p], "by", r.method)
    equal(list(r.x.index), list(m.pf.index), "index of x")
    close([r.x[p] for p in names], [x[p] for p in names], what="x of the result", rtol=1e-12, atol=1e-12)
    now = ref.ll(x)
    if any(x[p] < 0.01 for p in names if p.startswith("mu")):
        # methods that know no limits run into where the model has no probabilities
        ctx.label("logsum parameter (nearly) not positive")
        return
    close(r.loglike, now, what="log likelihood of the result", rtol=1e-6, atol=1e-6)
    close(m.loglike(**fold), now, what="log likelihood at the estimates", rtol=1e-6, atol=1e-6)
    inside = all(lo[p] - 1e-12 <= v[p] <= hi[p] + 1e-12 for p in names) and all(v[p] <= v[q] for p, q in spec["cons"])
    success = "successfully" in str(r.get("message", "")) or r.get("success") is True
    used = str(r.method).lower()
    loosely = used in ("trust-constr", "cobyla")
    if inside and not loosely and not kw.get("jumpstart"):
        require(now >= start - 1e-7 * (1 + abs(start)), "the log likelihood falls from", start, "to", now, "by", r.method, r.get("message"))
    if bounded or used.endswith("slsqp"):
        tol = 1e-4 if loosely else 1e-8
        if (success or not loosely) and (inside or success):
            for p in names:
                require(lo[p] - tol <= x[p] <= hi[p] + tol, p, "=", x[p], "is outside of", (lo[p], hi[p]), "by", r.method, r.get("message"))
    if used.endswith("slsqp") and success:
        for p, q in spec["cons"]:
            require(x[p] <= x[q] + 1e-4, "constraint", p, "<", q, "with", x[p], x[q], "by", r.method, r.get("message"))
    equal(r.n_cases, n, "n_cases")
    w = np.array(s["wt"] if s["wt"] is not None else [1.0] * n)
    # the weight of what is chosen, or of the cases, depending on how the data were prepared
    totals = [t for t in (w.sum(), (w * np.array(s["ch"]).sum(1)).sum()) if t > 0]
    if totals and w.sum() > 0:
        require(any(np.isclose(r.logloss, -r.loglike / t, rtol=1e-6) for t in totals), "logloss", r.logloss, "of", r.loglike, totals)
    close(m.most_recent_estimation_result.loglike, r.loglike, what="most recent result")
    best = {p: float(m.pf.best[p]) for p in names} if not fold else {}
    if not fold and all(z[p] > 0.01 for z in (x, best) for p in names if p.startswith("mu")):
        require(full.ll(best) >= now - 1e-7 * (1 + abs(now)), "best values give", full.ll(best), "estimates", now)
    # is it a maximum?
    moved = now > start + 1e-6
    ctx.nontrivial(moved)
    if success and spec["maxiter"] is None and method not in ("nelder-mead", "cobyla", "trust-constr", "tnc"):
        ignore_limits = used == "bfgs" or (used == "bhhh")
        if ignore_limits:
            lo2 = {p: -50.0 if lo[p] < hi[p] else lo[p] for p in names}
            hi2 = {p: 50.0 if lo[p] < hi[p] else hi[p] for p in names}
            if any(p.startswith("mu") for p in names):
                ctx.label("logsum parameters without limits")
                return
            cons = ()
        else:
            lo2, hi2 = {p: max(lo[p], -50.0) for p in names}, {p: min(hi[p], 50.0) for p in names}
            cons = [lambda z, p=p, q=q: z[q] - z[p] for p, q in spec["cons"]] if used.endswith("slsqp") else ()
        if not concave(s):
            # an optimizer is free to stop on a plateau, but not where it began when there is a way up
            g = ref.grad(v, names)
            up = [p for i, p in enumerate(names) if (g[i] > 0.5 and v[p] < hi2[p]) or (g[i] < -0.5 and v[p] > lo2[p])]
            if up and inside and not spec["cons"]:
                ctx.label("checked for progress")
                require(now > start + 1e-6, "no progress from", start, "although the gradient is", g, "by", r.method, r.get("message"))
            return
        top = best_from(ref, x, names, lo2, hi2, cons)
        ctx.label("checked for a maximum")
        require(top == -np.inf or top <= now + 2e-3 + 1e-4 * abs(now) + 0.02 * (top - start), "there is more: the estimates give", now, "and", top,
                "is near; by", r.method, r.get("message"), x)


@check("P09", spec_(), quick=500)
def compiled_engine(spec, ctx):
    run(spec, ctx, C.legacy(spec["m"], spec["fmt"], spec["how"], spec["autoscale"], 1), "legacy")


@check("P09", spec_(), quick=250, numba=True)
def numba_engine(spec, ctx):
    run(spec, ctx, C.numba(spec["m"], spec["via"]), "numba")


@check("P09", spec_(), quick=60)
def cross_validation(spec, ctx):
    s = spec["m"]
    note(s, ctx)
    m = C.legacy(s, spec["fmt"], spec["how"], spec["autoscale"], 1)
    spec = dict(spec, cap=True, cons=[])
    v = dict(s["values"])
    names, lo, hi = setup(spec, m)
    n, k = len(s["caseids"]), spec["sub"]
    order = C.case_order(s)
    if not np.isfinite(Ref(s).ll(v)):
        return
    inside = all(lo[p] <= v[p] <= hi[p] for p in names)
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = m.cross_validate(k, method="slsqp")
    want, worst = 0.0, 0.0
    prior = v
    for f in range(k):
        x = {p: float(m.pf[f"cv_{f:03d}"][p]) for p in names}
        for p in spec["hold"]:
            require(x[p] == v[p], "fixed parameter", p, "moved")
        out = Ref(s, rows_of(n, -1, f, k), order)
        inn = Ref(s, rows_of(n, f, -1, k), order)
        want += out.ll(x)
        worst = min(worst, np.min(C.ref(s, x)["logP"][np.array(s["ch"]) > 0], initial=0.0))
        if inside:
            require(inn.ll(x) >= inn.ll(prior) - 1e-7 * (1 + abs(inn.ll(prior))), "fold", f, "is not improved on the other cases")
        top = best_from(inn, x, names, lo, hi) if concave(s) else -np.inf
        require(top == -np.inf or top <= inn.ll(x) + 2e-3 + 1e-4 * abs(top) + 0.02 * (top - inn.ll(prior)), "fold", f, "is not estimated from the other cases:", inn.ll(x), top)
        prior = x
    if worst < -30:
        ctx.label("a case left out has next to no probability")
        return
    close(got, want, what="cross-validated log likelihood")
    ctx.nontrivial(n >= k)
