"""Reference log likelihoods, fit statistics and the tables that report them."""
import re
import numpy as np
from hypothesis import strategies as st
from vt.core import check, require, equal, close
from vt import choice as C

byte = st.integers(0, 255)


def reports(engine):
    return st.fixed_dictionaries({
        "m": C.model_spec(nests="maybe", quantity="maybe", max_cases=6, max_alts=4), "engine": engine, "fmt": st.sampled_from(["ca", "ce"]),
        "autoscale": st.booleans(), "hold": st.lists(byte, max_size=2), "null": st.lists(st.tuples(byte, st.sampled_from([0.5, -0.25, 1.0])), max_size=2),
        "asks": st.lists(st.sampled_from(["null", "nil", "constants", "rho null", "rho nil", "statistics", "values", "x"]), min_size=1, max_size=6),
        "fit": st.booleans()})


def nil(s):
    """Log likelihood if all available alternatives were equally likely."""
    return C.ref(dict(s, uca=[], uco={}, qca=[], theta=None, nests=[]), {})["ll"]


def constants(s):
    """The highest log likelihood with a constant for each alternative but the first, and where it is found."""
    from scipy.optimize import minimize
    names = [f"c{a}" for a in s["alts"][1:]]
    t = dict(s, uca=[], qca=[], theta=None, nests=[], uco={a: [[f"c{a}", None, 1.0]] for a in s["alts"][1:]})
    f = lambda x: -C.ref(t, dict(zip(names, x)))["ll"]
    r = minimize(f, np.zeros(len(names)), method="L-BFGS-B", bounds=[(-25, 25)] * len(names))
    return -r.fun


def rows(div):
    """The text of the cells of a table, row by row."""
    out = []
    for tr in div.iter():
        if str(tr.tag).endswith("tr"):
            out.append(["".join(td.itertext()) for td in tr])
    return out


def run(spec, ctx, make):
    s = spec["m"]
    m = make(s)
    names = list(m.pf.index)
    values = dict(s["values"])
    nulls = {p: 1.0 if p.startswith("mu") or p == "theta" else 0.0 for p in names}
    for i, v in spec["null"]:
        p = names[i % len(names)]
        if not p.startswith("mu") and p != "theta":
            m.set_value(p, nullvalue=v)
            nulls[p] = v
    held = {names[i % len(names)] for i in spec["hold"]}
    for p in held:
        m.lock_value(p, values[p])
    # a held parameter stays at its value in the null model, which is stored with it
    for p in held:
        nulls[p] = float(m.pf.loc[p, "nullvalue"])
    at_null = {p: values[p] if p in held else nulls[p] for p in names}
    m.set_values(**values)
    ctx.label(*C.labels(s))
    ctx.nontrivial(C.nontrivial(s))
    if held:
        ctx.label("held parameters")
    n, k = len(s["caseids"]), len(names) - len(held)
    ll = C.ref(s, values)["ll"]
    ref = {"null": C.ref(s, at_null)["ll"], "nil": nil(s)}
    best = None
    close(m.loglike(), ll, what="loglike")
    known = set()
    if spec["fit"]:
        r = m.maximize_loglike(quiet=True, maxiter=3)
        values = dict(zip(names, m.pf.value.values))
        ll = C.ref(s, values)["ll"]
        fitted = r.loglike
        ctx.label("estimated")
    for ask in spec["asks"]:
        ctx.label(ask)
        if ask in ("null", "nil"):
            close(getattr(m, "loglike_" + ask)(), ref[ask], what="loglike_" + ask)
            known.add(ask)
        elif ask.startswith("rho"):
            which = ask[4:]
            if abs(ref[which]) < 1e-9:
                continue
            for adj in (False, True):
                want = 1 - (ll - adj * k) / ref[which]
                close(getattr(m, "rho_sq_" + which)(adj=adj), want, what=f"rho_sq_{which}(adj={adj})", rtol=1e-5, atol=1e-6)
            known.add(which)
        elif ask == "constants":
            if n > 1:
                best = constants(s) if best is None else best
                got = m.loglike_constants_only()
                require(ref["nil"] - 1e-6 <= got <= best + 1e-4 + 1e-5 * abs(best), f"constants only: {got}, between {ref['nil']} and {best}")
                require(got >= best - 0.02 * (best - ref["nil"]) - 0.02, f"constants only: {got}, not {best}")
                known.add(ask)
                ref[ask] = got
                close(m.loglike_constants_only(), got, what="constants only once more")
        elif ask == "x" and not held:
            x = {p: (v + 1.0) / 2 if p.startswith("mu") or p == "theta" else v + 0.25 for p, v in values.items()}
            if abs(ref["null"]) > 1e-9:
                close(m.rho_sq_null(x), 1 - C.ref(s, x)["ll"] / ref["null"], what="rho_sq_null of other values", rtol=1e-5, atol=1e-6)
                known.add("null")
                values, ll = x, C.ref(s, x)["ll"]
        elif ask == "statistics":
            t = {x[0]: x[1:] for x in rows(m.estimation_statistics()) if x}
            known.add("null")
            equal(t["Number of Cases"], [str(n)], "number of cases")
            titles = {"null": ["Log Likelihood at Null Parameters", "Rho Squared w.r.t. Null Parameters"],
                      "nil": ["Log Likelihood with No Model", "Rho Squared w.r.t. No Model"],
                      "constants": ["Log Likelihood at Constants Only", "Rho Squared w.r.t. Constants Only"]}
            if spec["fit"]:
                near(t["Log Likelihood at Convergence"], [fitted, fitted / n], 2, "convergence")
            else:
                require("Log Likelihood at Convergence" not in t, "converged without estimation")
            for w, (a, b) in titles.items():
                if w in known and abs(ref[w]) > 1e-9:
                    near(t[a], [ref[w], ref[w] / n], 2, a)
                    if spec["fit"]:
                        near(t[b], [1 - fitted / ref[w]], 3, b)
                    else:
                        require(b not in t, b)
                elif w not in known:
                    require(a not in t, a)
        got = dict(zip(m.pf.index, m.pf.value.values))
        equal(sorted(got), sorted(names), "parameters after " + ask)
        close([got[p] for p in names], [values[p] for p in names], what="values after " + ask)
        close(m.loglike(), ll, what="loglike after " + ask)


def near(got, want, digits, what):
    require(len(got) == len(want), what, got, want)
    for g, w in zip(got, want):
        g = float(g)
        require(abs(g - w) <= 0.51 * 10 ** -digits + 1e-6 * abs(w) or (np.isinf(w) and g == w), what, got, want)


@check("P24", reports(st.sampled_from(["direct", "load"])), quick=400)
def reference_values(spec, ctx):
    """Null, no-model and constants-only log likelihoods and what is derived from them."""
    run(spec, ctx, lambda s: C.legacy(s, spec["fmt"], spec["engine"], autoscale=spec["autoscale"]))


@check("P24", reports(st.sampled_from(["df", "df", "df", "ds"])), quick=32, numba=True)
def numba_reference_values(spec, ctx):
    run(spec, ctx, lambda s: C.numba(s, spec["engine"], fmt=spec["fmt"]))


table = st.fixed_dictionaries({
    "models": st.lists(st.lists(st.tuples(st.sampled_from(["cost", "time", "ASC:2", "ASC:3", "hh inc", "b.c"]),
                                          st.sampled_from([0.0, 1.0, -0.0123456, 1234.5, -2.5e-7, 0.5, 99.951, -1e6, 0.1]), st.integers(0, 9), byte), min_size=1, max_size=5),
                       min_size=1, max_size=3),
    "columns": st.sets(st.sampled_from(["std_err", "t_stat", "likelihood_ratio"])), "order": st.integers(0, 3), "t": st.booleans()})
TS = [0.0, 1.9599, 1.9601, -2.5757, -2.5759, 3.2904, -3.2906, 1500.0, float("nan"), -2000.0, 0.125, 1.9206, 1.9208, 3.3173, 3.3175, 5.4137, 5.4139]
ORDERS = [(), (("Level", "cost", "time"),), (("Some", "ASC.*"), ("Cost", ".*")), (("One", "b\\.c"), ("Two", "hh.*", "ASC:3"))]


def number(text):
    text = str(text).replace("\u00a0", "").replace(" ", "")
    return text if text in ("NA", "BIG", "-BIG") else float(text)


def same(text, want, digits, what, decimals=False):
    got = number(text)
    if not np.isfinite(want):
        equal(got, "NA", what)
    elif decimals and abs(want) > 1000:
        equal(got, "BIG" if want > 0 else "-BIG", what)
    else:
        tol = 0.51 * 10 ** -digits if decimals else 0.51 * 10 ** (np.floor(np.log10(abs(want))) - digits + 1) if want else 1e-12
        require(not isinstance(got, str) and abs(got - want) <= tol, what, text, want)


def stars(t, bounds, left="", right=""):
    return left + "*" * sum(abs(t) > b for b in bounds) + right


@check("P24", table, quick=300)
def tables(spec, ctx):
    """Each row of a summary shows the figures of its parameter, and the figures only."""
    import larch
    from larch.roles import P, X
    from larch.util.summary import joint_parameter_summary
    models, shown = [], []
    for i, ps in enumerate(spec["models"]):
        m = larch.Model(alts=[1, 2])
        m.title = f"Model {i}"
        ps = {p: (v, t, b) for p, v, t, b in ps}
        for p in ps:
            m.utility_ca = m.utility_ca + P(p) * X("x")
        m.unmangle()
        m.set_values(**{p: v for p, (v, _, _) in ps.items()})
        f = m.pf.copy()
        for c, shift in (("std_err", 3), ("t_stat", 0), ("likelihood_ratio", 7)):
            if c in spec["columns"]:
                f[c] = [TS[(ps[p][1] + shift * ps[p][2]) % len(TS)] for p in f.index]
                if c == "std_err":
                    f[c] = f[c].abs()
        m.set_frame(f)
        m.ordering = ORDERS[spec["order"]]
        left, want = set(ps), []
        for cat in ORDERS[spec["order"]]:
            for pat in cat[1:]:
                hit = sorted(k for k in left if re.match(pat, k))
                want += [(cat[0], k) for k in hit]
                left -= set(hit)
        if ORDERS[spec["order"]]:
            want += [("Other", k) for k in sorted(left)]
        else:
            want = [("", k) for k in f.index]
        t = m.parameter_summary().data
        equal([x if isinstance(x, tuple) else ("", x) for x in t.index], want, "rows")
        for (_, p), (_, r) in zip(want, t.iterrows()):
            z = f.loc[p]
            same(r["Value"], z["value"], 3, "value of " + p)
            equal(float(r["Null Value"]), z["nullvalue"], "null value")
            sig = ""
            if "std_err" in f:
                same(r["Std Err"], z["std_err"], 3, "standard error of " + p)
            if "t_stat" in f:
                same(r["t Stat"], z["t_stat"], 2, "t of " + p, True)
                if np.isfinite(z["t_stat"]):
                    sig = stars(z["t_stat"], (1.96, 2.5758, 3.2905))
            if "likelihood_ratio" in f:
                same(r["Like Ratio"], z["likelihood_ratio"], 2, "likelihood ratio of " + p, True)
                if ("t_stat" not in f or not np.isfinite(z["t_stat"])) and np.isfinite(z["likelihood_ratio"]):
                    sig = stars(max(z["likelihood_ratio"], 0), (1.9207, 3.3174, 5.4138), "[", "]")
            if "t_stat" in f or "likelihood_ratio" in f:
                equal(r["Signif"], sig, "significance of " + p)
        models.append(m)
        shown.append({p: (r["Value"], r.get("t Stat")) for (_, p), (_, r) in zip(want, t.iterrows())})
        x = rows(m.parameter_summary("xml"))
        ctx.label(*sorted(spec["columns"]))
        for (_, p), r in zip(want, x[1:]):
            z = f.loc[p]
            figures = [c for c in ("value", "std_err", "t_stat", "nullvalue") if c in f]
            got = r[-len(figures):]
            require(p.split(":")[-1] in r[:-len(figures)], "row of", p, r)
            for c, g in zip(figures, got):
                if np.isfinite(z[c]):
                    digits = {"value": 4, "std_err": 3, "t_stat": 2, "nullvalue": 2}[c]
                    tol = 0.0051 if c == "t_stat" else 0.51 * 10 ** (np.floor(np.log10(abs(z[c]))) - digits + 1) if z[c] else 1e-12
                    require(abs(float(g) - z[c]) <= tol, "figures of", p, got, z[c])
    ctx.nontrivial(len(models) > 1 and bool(spec["columns"]))
    both = joint_parameter_summary(models, ordering=ORDERS[spec["order"]] or None, t_stats=spec["t"], loglike=False, rhosq=False)
    equal(sorted(k for _, k in both.index), sorted(set().union(*shown)), "parameters of all models")
    for (_, p), r in both.iterrows():
        for m, s in zip(models, shown):
            equal(r[(m.title, "Param")], s[p][0] if p in s else "", f"{p} in {m.title}")
            if spec["t"]:
                equal(r[(m.title, "t-Stat")], (s[p][1] if p in s and s[p][1] is not None else ""), f"t of {p} in {m.title}")
