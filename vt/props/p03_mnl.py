"""Multinomial logit results against the closed form."""
import numpy as np
from hypothesis import strategies as st
from vt.core import check, close, require, equal
from vt import choice as C

mnl = C.model_spec(nests="no")
legacy_case = st.fixed_dictionaries({
    "m": C.model_spec(nests="no", shift=True), "fmt": st.sampled_from(["ca", "ce"]),
    "how": st.sampled_from(["direct", "load"]), "autoscale": st.booleans(),
    "threads": st.sampled_from([1, 1, 2, 3]), "held": st.lists(st.integers(0, 7), max_size=2)})


def note(spec, ctx):
    ctx.nontrivial(C.nontrivial(spec))
    ctx.label(*C.labels(spec))


def hold(m, spec, ctx):
    """Parameters that are held fast go on having their values."""
    names = sorted(spec["m"]["values"])
    for i in spec["held"]:
        if names:
            n = names[i % len(names)]
            m.lock_value(n, spec["m"]["values"][n])
            ctx.label("held fast")


@check("P03", legacy_case, quick=1600)
def compiled_engine(spec, ctx):
    s = spec["m"]
    note(s, ctx)
    r = C.ref(s)
    m = C.legacy(s, spec["fmt"], spec["how"], spec["autoscale"], spec["threads"])
    hold(m, spec, ctx)
    if spec["autoscale"] and s["wt"] is not None and spec["how"] == "load":
        ctx.label("rescaled weights")
    o = C.in_order(m, s)
    k = C.case_order(s)
    close(m.loglike(), r["ll"], what="loglike")
    pr = m.probability()
    close(pr[:, o], r["P"][k], what="probability")
    close(m.utility()[:, o], r["U"][k], what="utility")
    eu = m.exputility()
    close((eu / eu.sum(1, keepdims=True))[:, o], r["P"][k], what="exputility")
    close(m.logsums(), r["logsum"][k], what="logsums")
    df = m.probability(return_dataframe=True)
    equal(list(df.index), sorted(s["caseids"]), "probability cases")
    close(df[s["alts"]].values, r["P"][k], what="probability table")


numba_case = st.fixed_dictionaries({
    "m": C.model_spec(nests="no", shift=True), "via": st.sampled_from(["ds", "ds", "df"]),
    "held": st.lists(st.integers(0, 7), max_size=2)})


@check("P03", numba_case, quick=800, numba=True)
def numba_engine(spec, ctx):
    s = spec["m"]
    note(s, ctx)
    ctx.label("from " + spec["via"])
    r = C.ref(s)
    m = C.numba(s, spec["via"])
    hold(m, spec, ctx)
    o = C.in_order(m, s)
    k = C.case_order(s) if spec["via"] == "df" else slice(None)
    close(m.loglike(), r["ll"], what="loglike")
    close(m.loglike_casewise(), r["llc"][k], what="loglike_casewise")
    close(m.probability()[:, o], r["P"][k], what="probability")
    close(m.utility()[:, o], r["U"][k], what="utility")
    close(m.logsums(), r["logsum"][k], what="logsums")
    if s["qca"]:
        q = m.quantity()[:, o]
        av = np.isfinite(r["U"])[k]
        close(np.where(av, q, 0), np.where(av, C.ref_quantity(s)[k], 0), what="quantity")
    if spec["via"] == "ds":
        df = m.probability(return_dataframe=True)
        equal(list(df.index), s["caseids"], "probability cases")
        close(df[s["alts"]].values, r["P"], what="probability table")
