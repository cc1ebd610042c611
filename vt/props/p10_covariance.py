"""Standard errors, covariances and likelihood ratios against the curvature of the closed form."""
import warnings
import numpy as np
from hypothesis import strategies as st
from vt.core import check, close, require, equal
from vt import choice as C
from vt.props.p03_mnl import note
from vt.props.p05_derivs import score


STEP = 1.4901161193847656e-08


def probe_d2_moves_a_value():
    import larch
    import pandas as pd
    from larch.roles import P, X
    idx = pd.Index([1, 2, 3], name="caseid")
    m = larch.Model()
    m.utility_co[2] = P("b") * X("x")
    m.dataservice = larch.DataFrames(data_co=pd.DataFrame({"x": [1.0, 2.0, 3.0]}, index=idx), alt_codes=[1, 2],
                                     data_ch=pd.DataFrame([[1, 0], [0, 1], [1, 0]], index=idx, columns=[1, 2], dtype=float),
                                     data_av=pd.DataFrame(1, index=idx, columns=[1, 2], dtype=np.int8))
    m.load_data()
    m.set_value("b", 0.25)
    m.d2_loglike()
    return None if m.pf.value["b"] == 0.25 else f"the value 0.25 has become {m.pf.value['b']!r}"


def total(s, values=None):
    r = C.ref(s, values)
    with np.errstate(invalid="ignore"):
        lp = np.where(r["ch"] > 0, r["logP"], 0.0)
    return float((r["ch"] * lp * r["wt"][:, None]).sum())


def curvature(s, names, h=2e-3):
    """- second derivatives of the log likelihood, by central differences of the closed form."""
    def at(**d):
        v = dict(s["values"])
        for k, x in d.items():
            v[k] += x
        return total(s, v)
    n = len(names)
    H = np.zeros((n, n))
    f0 = at()
    for i, p in enumerate(names):
        H[i, i] = (-(at(**{p: 2 * h}) + at(**{p: -2 * h})) + 16 * (at(**{p: h}) + at(**{p: -h})) - 30 * f0) / 12 / h / h
        for j in range(i):
            q = names[j]
            g = lambda e: (at(**{p: e, q: e}) - at(**{p: e, q: -e}) - at(**{p: -e, q: e}) + at(**{p: -e, q: -e})) / 4 / e / e
            H[i, j] = H[j, i] = (4 * g(h) - g(2 * h)) / 3
    return -H


@st.composite
def spec_(draw, cons=True, engine="legacy"):
    m = draw(st.one_of(C.model_spec(nests="no", max_cases=12, max_alts=4, quantity="maybe"),
                       C.model_spec(nests="no", max_cases=12, max_alts=4, quantity="no"),
                       C.model_spec(nests="yes", max_cases=12, max_alts=4)))
    names = C.params(m)
    b = draw(st.binary(min_size=4 * len(names) + 12, max_size=4 * len(names) + 12))
    hold = [p for i, p in enumerate(names) if b[i] % 6 == 5]
    null = {p: [0.0, 1.0, m["values"][p], 0.5][b[len(names) + i] % 4] for i, p in enumerate(names)
            if b[2 * len(names) + i] % 3 == 2 and not p.startswith("mu") and p != "theta"}
    cs = []
    k = 4 * len(names)
    if cons:
        for _ in range(draw(st.integers(0, 3))):
            p, q = names[b[k] % len(names)], names[b[k + 1] % len(names)]
            kind = ["max", "min", "le", "ge", "order", "ratio"][b[k + 2] % 6]
            if kind in ("order", "ratio") and p == q:
                kind = "le"
            if kind == "ratio" and (m["values"][q] <= 0 or abs(m["values"][p] / m["values"][q]) > 8):
                kind = "order"
            gap = [0.0, 0.0, 0.0, 0.75][b[k + 3] % 4]
            if kind == "order":
                # one value for both
                if not ((p.startswith("mu") or p == "theta") and not (q.startswith("mu") or q == "theta")):
                    m["values"][q] = m["values"][p]
                    gap = 0.0
                else:
                    kind = "le"
            cs.append([kind, p, q, gap])
            k += 4
            if kind == "order":
                break
    return {"m": m, "hold": hold, "null": null, "cons": cs, "fmt": draw(st.sampled_from(["ca", "ce"])),
            "autoscale": draw(st.booleans()), "twice": draw(st.integers(0, 3)), "via": draw(st.sampled_from(["ds", "df"]))}


def constrain(m, spec):
    """Put the constraints of the spec on the model; returns for each (names, gradient by name, binding)."""
    from larch.model.constraints import FixedBound, OrderingBound, RatioBound
    v = spec["m"]["values"]
    out = []
    for kind, p, q, gap in spec["cons"]:
        if kind == "max":
            m.pf.loc[p, "maximum"] = v[p] + gap
        elif kind == "min":
            m.pf.loc[p, "minimum"] = v[p] - gap
        elif kind == "le":
            m.constraints.append(FixedBound(p, None, v[p] + gap))
        elif kind == "ge":
            m.constraints.append(FixedBound(p, v[p] - gap, None))
        elif kind == "order":
            m.constraints.append(OrderingBound(p, q))
        else:
            m.pf.loc[q, "minimum"] = 0.0
            m.unmangle()
            m.constraints.append(RatioBound(p, q, None, v[p] / v[q] + gap))
    if spec["cons"]:
        m.unmangle()
    for kind, p, q, gap in spec["cons"]:
        if kind == "order":
            out.append(((p, q), {p: 1.0, q: -1.0}))
        elif gap or kind in ("max", "min"):
            continue
        elif kind == "ratio":
            out.append(((p, q), {p: 1.0, q: -v[p] / v[q]}))
        else:
            out.append(((p,), {p: 1.0}))
    # bounds, also those that come with the model, such as for logsum parameters
    for p in m.pf.index:
        for side in ("minimum", "maximum"):
            if m.pf.loc[p, side] == v[p] and not m.pf.holdfast[p]:
                out.append(((p,), {p: 1.0}))
    return out


def run(spec, ctx, m):
    s = spec["m"]
    note(s, ctx)
    names = C.params(s)
    m.unmangle()
    for p in spec["hold"]:
        m.lock_value(p, s["values"][p])
    for p, x in spec["null"].items():
        m.pf.loc[p, "nullvalue"] = x
    binding = constrain(m, spec)
    v = s["values"]
    null = {p: float(m.pf.nullvalue[p]) for p in names}
    holds = {p: bool(m.pf.holdfast[p]) for p in names}
    equal({p for p in names if holds[p]}, set(spec["hold"]), "holdfast")
    order = list(m.pf.index)
    ix = [order.index(p) for p in names]
    equal(len(order), len(names), "number of parameters")
    H = curvature(s, names)
    if not np.isfinite(H).all():
        ctx.label("something chosen has no probability")
        return
    _, B, _, _, _ = score(s)
    free = np.array([not holds[p] for p in names])
    scale = max(1.0, np.abs(H).max())
    def unchanged(what):
        # known finding: each approximation leaves the last parameter moved by the step of the differences
        for p in names:
            ok = {v[p]} if p != order[-1] else {v[p], v[p] + STEP}
            require(m.pf.value[p] in ok, what, "changes the value of", p, "from", v[p], "to", m.pf.value[p])
        if m.pf.value[order[-1]] != v[order[-1]]:
            m.set_value(order[-1], v[order[-1]])

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d2 = -np.asarray(m.d2_loglike())[np.ix_(ix, ix)]
    unchanged("d2_loglike")
    f2 = np.ix_(free, free)
    close(d2[f2], H[f2], what="d2_loglike", rtol=1e-5, atol=1e-5 * scale)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.calculate_parameter_covariance()
        if spec["twice"] == 0:
            unchanged("calculate_parameter_covariance")
            m.calculate_parameter_covariance()
    unchanged("calculate_parameter_covariance")
    # parameters without any effect have no variance
    idle = np.array([np.abs(H[i]).max() < 1e-7 * scale for i in range(len(names))])
    live = free & ~idle
    if np.any(d2[np.ix_(idle & free, free)]):
        ctx.label("an idle parameter that rounding moves")
        return
    h = H[np.ix_(live, live)]
    if not live.any():
        ctx.label("nothing is free")
        return
    eig, vec = np.linalg.eigh(h)
    small = np.abs(eig).min()
    over = m.possible_overspecification
    if over and small > 1e-6 * scale:
        # parameters without effect may be among those reported; nothing else is wrong here
        noise = {n for n, z in zip(names, idle) if z}
        rest = [x for x in m._possible_overspecification
                if any(abs(w) > 1e-3 and n not in noise for n, w in zip(x[1], x[2]))]
        if not rest:
            ctx.label("an idle parameter that rounding moves")
            return
    if small < 1e-6 * scale:
        ctx.label("singular")
        if small < 1e-7 and scale < 1e3:
            require(over, "the model is over-specified, with eigenvalues", eig)
            found = set()
            for _, ps, _ in m._possible_overspecification:
                found.update(ps)
            for k in np.where(np.abs(eig) < 1e-7)[0]:
                part = {n for n, w in zip(np.array(names)[live], vec[:, k]) if abs(w) > 1e-2}
                require(part <= found, "over-specified parameters", part, "found", found)
            ctx.nontrivial()
            # not any more when all of them are fixed
            rest = live & np.array([p not in found for p in names])
            if not idle[free].any() and rest.any() and np.abs(np.linalg.eigvalsh(H[np.ix_(rest, rest)])).min() > 0.05:
                for p in found:
                    m.lock_value(p, v[p])
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m.calculate_parameter_covariance()
                ctx.label("well specified once some are fixed")
                require(not m.possible_overspecification, "over-specified with all of", found, "fixed:", m._possible_overspecification)
        return
    if small < 0.05:
        ctx.label("nearly singular")
        if small > 2e-3:
            require(not over, "over-specified with eigenvalues", eig)
        return
    require(not over, "over-specified with eigenvalues", eig)
    inv = np.zeros_like(H)
    inv[np.ix_(live, live)] = np.linalg.inv(h)
    size = 1 / small
    tol = 1e-5 * scale * size * size
    if tol > 0.05 * size:
        ctx.label("ill conditioned")
        return
    ctx.nontrivial()
    ctx.label("indefinite" if eig.min() < 0 else "concave")
    take = np.ix_(ix, ix)
    frame = m.pf.loc[names]
    want = inv
    any_constraint = len(m.constraints) > 0 or any(
        not holds[p] and (np.isfinite(m.pf.minimum[p]) or np.isfinite(m.pf.maximum[p])) for p in names)
    rows = [np.array([g.get(p, 0.0) for p in names]) for _, g in binding]
    A = np.array([r for r in rows if np.any(r[live])]) if rows else np.zeros((0, len(names)))
    if len(A) and any(np.any(a[idle & free]) and np.any(a[live]) for a in A):
        ctx.label("a constraint with an idle parameter")
        return
    if len(A):
        # the inverse on the space that the constraints leave
        _, sv, vt_ = np.linalg.svd(A[:, live])
        rank = int((sv > 1e-9).sum())
        Z = vt_[rank:].T
        zz = Z.T @ h @ Z
        if zz.size:
            e2 = np.abs(np.linalg.eigvalsh(zz)).min()
        # each step of the elimination needs a pivot
        s_ = inv.copy()
        for a in A:
            den = a @ s_ @ a
            if abs(den) < 1e-3 and abs(den) > 1e-12:
                ctx.label("small pivot")
                return
            if abs(den) > 1e-12:
                s_ = s_ - np.outer(s_ @ a, s_ @ a) / den
        want = np.zeros_like(H)
        if zz.size:
            want[np.ix_(live, live)] = Z @ np.linalg.inv(zz) @ Z.T
            if e2 < 0.05:
                ctx.label("small pivot")
                return
        ctx.label("binding")
        tol *= 10
    got = m.covariance_matrix.loc[names, names].values
    close(got, want, what="covariance_matrix", rtol=0, atol=tol)
    rob = m.robust_covariance_matrix.loc[names, names].values
    bs = max(1.0, np.abs(B).max())
    close(rob, inv @ B @ inv, what="robust_covariance_matrix", rtol=0, atol=tol * 4 * bs * size)
    if any_constraint:
        close(m._matrixes["unconstrained_covariance_matrix"][take], inv, what="unconstrained covariance", rtol=0, atol=tol)
        unc = frame["unconstrained_std_err"].values ** 2
    else:
        # the same, from the derivatives that the model itself reports, closely
        inv2 = np.zeros_like(H)
        inv2[np.ix_(live, live)] = np.linalg.inv(d2[np.ix_(live, live)])
        close(got, inv2, what="covariance_matrix as inverse", rtol=1e-4, atol=1e-6 * scale * size * size)
        unc = None
    pinned = {p for ps, _ in binding for p in ps}
    for i, p in enumerate(names):
        val, se, t = v[p] - null[p], frame["std_err"][p], frame["t_stat"][p]
        if any_constraint and holds[p]:
            if rows or any(holds.values()):
                require(np.isnan(se) and np.isnan(t), "fixed parameter", p, "has std_err", se, "t", t)
                equal(frame["constrained"][p], "fixed value", "note")
            continue
        if any_constraint and (rows or any(holds.values())):
            equal(bool(frame["constrained"][p]), p in pinned, f"note of {p}: {frame['constrained'][p]!r}, binding {binding}")
        var = want[i, i]
        if var > max(20 * tol, 1e-6):
            close(se, np.sqrt(var), what="std_err " + p, rtol=1e-3 + tol / var, atol=0)
            close(t, val / np.sqrt(var), what="t_stat " + p, rtol=1e-3 + tol / var, atol=1e-6 / np.sqrt(var))
        elif var < -20 * tol:
            require(np.isnan(se), "std_err of a negative variance", p, se)
        elif var == 0 and p in pinned and val:
            require(np.isnan(se) or se < 1e-4, "std_err of", p, se)
            require(not np.isfinite(t) or abs(t) > 1e3, "t_stat of", p, t)
        rv = rob[i, i]
        if rv > 1e-6:
            close(frame["robust_std_err"][p], np.sqrt(rv), what="robust_std_err", rtol=1e-3)
            close(frame["robust_t_stat"][p], val / np.sqrt(rv), what="robust_t_stat", atol=1e-6 / np.sqrt(rv), rtol=1e-3)
        if unc is not None and inv[i, i] > max(20 * tol, 1e-6):
            close(frame["unconstrained_std_err"][p], np.sqrt(inv[i, i]), what="unconstrained_std_err", rtol=1e-3 + tol / inv[i, i])
            close(frame["unconstrained_t_stat"][p], val / np.sqrt(inv[i, i]), what="unconstrained_t_stat",
                  rtol=1e-3 + tol / inv[i, i], atol=1e-6 / np.sqrt(inv[i, i]))
        if not np.isfinite(t) and not holds[p]:
            close(m.pf.likelihood_ratio[p], total(s) - total(s, dict(v, **{p: null[p]})), what="likelihood ratio of " + p, atol=1e-5)
            ctx.label("likelihood ratio for a pinned parameter")


@check("P10", spec_(), quick=500)
def compiled_engine(spec, ctx):
    run(spec, ctx, C.legacy(spec["m"], spec["fmt"], "direct" if spec["twice"] % 2 else "load", spec["autoscale"], 1))


@check("P10", spec_(), quick=300, numba=True)
def numba_engine(spec, ctx):
    run(spec, ctx, C.numba(spec["m"], spec["via"]))


@check("P10", spec_(cons=False), quick=400)
def ratio(spec, ctx):
    """likelihood_ratio: the loss of log likelihood when one parameter goes to its null, or to another, value."""
    s = spec["m"]
    note(s, ctx)
    names = C.params(s)
    m = C.legacy(s, spec["fmt"], "direct", spec["autoscale"], 1)
    m.unmangle()
    for p, x in spec["null"].items():
        m.pf.loc[p, "nullvalue"] = x
    for p in spec["hold"]:
        m.pf.loc[p, "holdfast"] = 1
    v = s["values"]
    null = {p: float(m.pf.nullvalue[p]) for p in names}
    here = total(s)
    want = {p: here - total(s, dict(v, **{p: null[p]})) for p in names}
    ctx.nontrivial(any(want[p] for p in names))
    tol = dict(atol=1e-6, rtol=1e-6)
    unchanged = lambda: [require(m.pf.value[p] == v[p], "the value of", p, "is now", m.pf.value[p]) for p in names]
    k = spec["twice"]
    if k == 0:
        for p in names:
            close(m.likelihood_ratio(p), want[p], what="likelihood_ratio " + p, **tol)
            close(m.pf.likelihood_ratio[p], want[p], what="stored", **tol)
            unchanged()
            x = 0.75
            close(m.likelihood_ratio(p, ref_value=x), here - total(s, dict(v, **{p: x})), what="with ref_value", **tol)
            close(m.pf.likelihood_ratio[p], want[p], what="stored", **tol)
            unchanged()
    else:
        ask = None if k == 1 else names[::2]
        inc = k == 3
        got = m.likelihood_ratio(ask, include_holdfast=inc)
        equal(sorted(got.index), sorted(ask or names), "index")
        for p in got.index:
            if p in spec["hold"] and not inc:
                require(np.isnan(got[p]), "holdfast", p, got[p])
            else:
                close(got[p], want[p], what="likelihood_ratio " + p, **tol)
                close(m.pf.likelihood_ratio[p], want[p], what="stored " + p, **tol)
        unchanged()
    close(m.loglike(), here, what="loglike after")
