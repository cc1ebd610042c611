"""Derivatives against finite differences of the closed form."""
import numpy as np
from hypothesis import strategies as st
from vt.core import check, close, require, equal
from vt import choice as C
from vt.props.p03_mnl import note

legacy_case = st.fixed_dictionaries({
    "m": st.one_of(C.model_spec(nests="no"), C.model_spec(nests="yes"), C.model_spec(nests="yes", cross=True, max_alts=6)),
    "fmt": st.sampled_from(["ca", "ce"]),
    "how": st.sampled_from(["direct", "load"]), "autoscale": st.booleans(),
    "threads": st.sampled_from([1, 1, 2, 3])})


def score(s):
    """(casewise log likelihood derivative [n x K], outer products of single choices [K x K], names)."""
    names = C.params(s)
    lp = lambda v: np.where(np.isfinite(C.ref(s, v)["logP"]), C.ref(s, v)["logP"], 0.0)
    d = C.central(lp, s["values"], names)            # n x J x K
    r = C.ref(s)
    w = r["ch"] * r["wt"][:, None]
    return np.einsum("cj,cjk->ck", w, d), np.einsum("cj,cjk,cjl->kl", w, d, d), names, d, r


@check("P05", legacy_case, quick=1200)
def compiled_engine(spec, ctx):
    s = spec["m"]
    note(s, ctx)
    m = C.legacy(s, spec["fmt"], spec["how"], spec["autoscale"], spec["threads"])
    dll, bhhh, names, d, r = score(s)
    k = C.case_order(s)
    tol = dict(rtol=1e-6, atol=1e-7)
    q = m.loglike2()
    close(q.ll, r["ll"], what="ll")
    close(q.dll[names].values, dll.sum(0), what="dll", **tol)
    require(len(q.dll) == len(names), "parameters", list(q.dll.index), names)
    close(np.asarray(m.d_loglike())[[list(m.pf.index).index(p) for p in names]], dll.sum(0), what="d_loglike", **tol)
    b = m.loglike2_bhhh(persist=m_persist())
    ix = [list(m.pf.index).index(p) for p in names]
    close(np.asarray(b.bhhh)[np.ix_(ix, ix)], bhhh, what="bhhh", rtol=1e-6, atol=1e-6)
    close(b.ll_casewise, r["llc"][k], what="ll_casewise")
    close(b.dll_casewise[names].values, dll[k], what="dll_casewise", **tol)
    o = C.in_order(m, s)
    with np.errstate(invalid="ignore"):
        dp = m.d_probability()
    close(dp[:, o][:, :, ix], (d * r["P"][:, :, None])[k], what="d_probability", **tol)


def m_persist():
    from larch.model.persist_flags import PERSIST_LOGLIKE_CASEWISE, PERSIST_D_LOGLIKE_CASEWISE
    return PERSIST_LOGLIKE_CASEWISE | PERSIST_D_LOGLIKE_CASEWISE


numba_case = st.fixed_dictionaries({
    "m": st.one_of(C.model_spec(nests="no"), C.model_spec(nests="yes")), "via": st.sampled_from(["ds", "ds", "df"])})


@check("P05", numba_case, quick=800, numba=True)
def numba_engine(spec, ctx):
    s = spec["m"]
    note(s, ctx)
    ctx.label("from " + spec["via"])
    m = C.numba(s, spec["via"])
    dll, bhhh, names, d, r = score(s)
    k = C.case_order(s) if spec["via"] == "df" else slice(None)
    tol = dict(rtol=1e-6, atol=1e-7)
    ix = [list(m.pf.index).index(p) for p in names]
    q = m.loglike2()
    close(q.ll, r["ll"], what="ll")
    close(q.dll[names].values, dll.sum(0), what="dll", **tol)
    require(len(q.dll) == len(names), "parameters", list(q.dll.index), names)
    close(np.asarray(m.d_loglike())[ix], dll.sum(0), what="d_loglike", **tol)
    close(np.asarray(m.d_loglike_casewise())[:, ix], dll[k], what="d_loglike_casewise", **tol)
    close(np.asarray(m.bhhh())[np.ix_(ix, ix)], bhhh, what="bhhh", rtol=1e-6, atol=1e-6)
    b = m.loglike2_bhhh(persist=m_persist())
    close(b.ll, r["ll"], what="ll")
    close(np.asarray(b.dll)[ix], dll.sum(0), what="dll", **tol)
    close(np.asarray(b.bhhh)[np.ix_(ix, ix)], bhhh, what="bhhh", rtol=1e-6, atol=1e-6)
    close(b.ll_casewise, r["llc"][k], what="ll_casewise")
    close(np.asarray(b.dll_casewise)[:, ix], dll[k], what="dll_casewise", **tol)
