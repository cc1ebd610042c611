"""Nested and cross-nested logit results against the closed form."""
import numpy as np
from hypothesis import strategies as st
from vt.core import check, close, require, equal
from vt import choice as C
from vt.props.p03_mnl import note, hold

legacy_case = st.fixed_dictionaries({
    "m": st.one_of(C.model_spec(nests="yes", shift=True), C.model_spec(nests="yes", cross=True, max_alts=6)),
    "fmt": st.sampled_from(["ca", "ce"]),
    "how": st.sampled_from(["direct", "load"]), "autoscale": st.booleans(),
    "threads": st.sampled_from([1, 1, 2, 3]), "held": st.lists(st.integers(0, 7), max_size=2)})


@check("P04", legacy_case, quick=1600)
def compiled_engine(spec, ctx):
    s = spec["m"]
    note(s, ctx)
    r = C.ref(s)
    m = C.legacy(s, spec["fmt"], spec["how"], spec["autoscale"], spec["threads"])
    hold(m, spec, ctx)
    o = C.in_order(m, s)
    k = C.case_order(s)
    close(m.loglike(), r["ll"], what="loglike")
    close(m.probability()[:, o], r["P"][k], what="probability")
    u = m.utility()
    close(u[:, o], r["U"][k], what="utility")
    nodes = list(m.graph.standard_sort)
    for code in r["order"]:
        close(u[:, nodes.index(code)], r["V"][code][k], what=f"utility of nest {code}")
    close(m.logsums(), r["logsum"][k], what="logsums")
    pn = m.probability(include_nests=True)
    for code in r["order"]:
        close(pn[:, nodes.index(code)], r["Pnode"][code][k], what=f"probability of nest {code}")
    df = m.probability(return_dataframe=True)
    equal(list(df.index), sorted(s["caseids"]), "probability cases")
    close(df[s["alts"]].values, r["P"][k], what="probability table")


numba_case = st.fixed_dictionaries({
    "m": C.model_spec(nests="yes", shift=True), "via": st.sampled_from(["ds", "ds", "df"]),
    "held": st.lists(st.integers(0, 7), max_size=2)})


@check("P04", numba_case, quick=800, numba=True)
def numba_engine(spec, ctx):
    s = spec["m"]
    note(s, ctx)
    ctx.label("from " + spec["via"])
    r = C.ref(s)
    m = C.numba(s, spec["via"])
    hold(m, spec, ctx)
    o = C.in_order(m, s)
    k = C.case_order(s) if spec["via"] == "df" else slice(None)
    close(m.loglike(), r["ll"], what="loglike")
    close(m.loglike_casewise(), r["llc"][k], what="loglike_casewise")
    close(m.probability()[:, o], r["P"][k], what="probability")
    nodes = list(m.graph.standard_sort)
    u = m.utility()
    pn = m.probability(include_nests=True)
    for code in r["order"]:
        close(pn[:, nodes.index(code)], r["Pnode"][code][k], what=f"probability of nest {code}")
    u = m.utility()
    close(u[:, o], r["U"][k], what="utility")
    for code in r["order"]:
        close(u[:, nodes.index(code)], r["V"][code][k], what=f"utility of nest {code}")
    close(m.logsums(), r["logsum"][k], what="logsums")
