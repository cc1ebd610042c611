"""Summaries of choice and availability, roll-ups to nests, and the fit/predict/score interface."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close, raises
from vt import choice as C, gen

TOTAL = "< Total All Alternatives >"
summary_spec = st.fixed_dictionaries({
    "m": C.model_spec(nests="maybe", quantity="no"), "fmt": st.sampled_from(["ca", "ce"]), "bad": st.lists(st.integers(0, 24), max_size=2),
    "names": st.booleans(), "nested": st.booleans(), "cond": st.booleans(), "equalwt": st.sampled_from([None, None, None, 1.0, 2.0])})


def prepared(spec, ctx):
    """The specification with some chosen alternatives made unavailable, and the figures that a summary must show."""
    s = dict(spec["m"])
    n, J = len(s["caseids"]), len(s["alts"])
    ctx.nontrivial(n > 1)
    if spec["equalwt"] and s["wt"] is not None:
        s["wt"] = [spec["equalwt"]] * n
    av = np.ones((n, J), dtype=int) if s["av"] is None else np.array(s["av"])
    ch = np.array(s["ch"], dtype=float)
    for b in spec["bad"]:
        c, j = b % n, (b // n) % J
        av[c, j] = 0
        if av[c].sum() == 0:
            av[c, j] = 1
    s["av"] = av.tolist()
    if (ch[av == 0] > 0).any():
        ctx.label("chosen but not available")
    ctx.label(*C.labels(s))
    return s, av, ch


def expected(s, av, ch, nested):
    wt = np.ones(len(av)) if s["wt"] is None else np.array(s["wt"])
    order, children, mu = C.tree(s)
    A = {a: av[:, j] > 0 for j, a in enumerate(s["alts"])}
    K = {a: ch[:, j] for j, a in enumerate(s["alts"])}
    if nested:
        for code in order:
            A[code] = np.any([A[k] for k in children[code]], axis=0)
            K[code] = np.sum([K[k] for k in children[code]], axis=0)
    rows = list(s["alts"]) + (order[:-1] if nested else [])
    out = {k: {
        "chosen weighted": float((K[k] * wt).sum()), "chosen unweighted": float(K[k].sum()),
        "available weighted": float((A[k] * wt).sum()), "available unweighted": float(A[k].sum()),
        "bad weighted": float((K[k] * wt)[~A[k]].sum()), "bad unweighted": float(K[k][~A[k]].sum())} for k in rows}
    if nested:
        tot = {"bad": (0, 0)}
        bw, bu = (K[0] * wt)[~A[0]].sum(), K[0][~A[0]].sum()
        out[TOTAL] = {"chosen weighted": float((K[0] * wt).sum()), "chosen unweighted": float(K[0].sum()), "bad weighted": float(bw), "bad unweighted": float(bu)}
    else:
        out[TOTAL] = {k: sum(out[a][k] for a in s["alts"]) for k in ("chosen weighted", "chosen unweighted", "bad weighted", "bad unweighted")}
    return out, wt


def judge(t, want, s, wt, names, cond, ctx):
    """t is the summary: one row for each alternative (and nest), and the totals."""
    weighted = s["wt"] is not None
    cols = list(t.columns)
    equal(sorted(map(str, t.index)), sorted(map(str, want)), "rows of the summary")
    split = "chosen weighted" in cols
    if not weighted:
        require(not split, "weights are shown where there are none")
    if weighted and any(abs(r["chosen weighted"] - r["chosen unweighted"]) > 1e-9 for k, r in want.items() if k != TOTAL):
        require(split, "weighted and unweighted choices differ but are not shown", cols)
    if split:
        ctx.label("weighted summary")
    pairs = [("chosen weighted", "chosen weighted"), ("chosen unweighted", "chosen unweighted"), ("available weighted", "available weighted"),
             ("available unweighted", "available unweighted")] if split else [("chosen", "chosen unweighted")]
    if not split and not weighted:
        pairs.append(("available", "available unweighted"))
    anybad = any(r.get("bad unweighted", 0) for r in want.values())
    if anybad:
        require(any("not available" in c for c in cols), "choices that are not available are not reported", cols)
        pairs += [("chosen but not available weighted", "bad weighted"), ("chosen but not available unweighted", "bad unweighted")] if split else [("chosen but not available", "bad unweighted")]
    else:
        require(not any("not available" in c for c in cols), "choices are reported as not available", cols)
    for col, key in pairs:
        for k, r in want.items():
            if key in r:
                close(float(t.loc[k, col]), r[key], what=f"{col} of {k}")
    if names:
        for k, v in names.items():
            equal(str(t.loc[k, "name"]), v, f"name of {k}")
    if cond:
        for k, v in cond.items():
            equal(str(t.loc[k, "availability condition"]), v, f"availability condition of {k}")


@check("P20", summary_spec, quick=600)
def compiled_summary(spec, ctx):
    """DataFrames.choice_avail_summary and its roll-ups count what the data hold."""
    import larch
    s, av, ch = prepared(spec, ctx)
    nested = bool(s["nests"]) and spec["nested"]
    d = C.dataframes(s, spec["fmt"])
    names = None
    if spec["names"]:
        names = {a: f"alt{a}" for a in s["alts"]}
        d.set_alternative_names(names)
    graph = None
    if nested:
        m = larch.Model()
        m.initialize_graph(alternative_codes=list(s["alts"]), alternative_names=[f"alt{a}" for a in s["alts"]] if names else None)
        C.add_nests(m, s)
        graph = m.graph
        names = {**(names or {}), **{c: f"nest{c}" for c, _, _ in s["nests"]}}
        ctx.label("nests")
    before = d.data_ch.copy(), d.data_av.copy()
    want, wt = expected(s, av, ch, nested)
    cond = {a: f"c{a}" for a in s["alts"]} if spec["cond"] else None
    t = d.choice_avail_summary(graph, cond)
    judge(t, want, s, wt, names, cond, ctx)
    require(d.data_ch.equals(before[0]) and d.data_av.equals(before[1]), "the summary changed the data")
    if graph is not None:
        k = C.case_order(s)
        order, children, _ = C.tree(s)
        A = {a: av[k, j] for j, a in enumerate(s["alts"])}
        K = {a: ch[k, j] for j, a in enumerate(s["alts"])}
        for code in order:
            A[code] = np.max([A[x] for x in children[code]], axis=0)
            K[code] = np.sum([K[x] for x in children[code]], axis=0)
        from larch.numba import cascading
        slots = list(graph.standard_sort)
        for a in A:
            close(d.data_av_cascade(graph)[a].values, A[a], what=f"availability rolled up to {a}")
            close(d.data_ch_cascade(graph)[a].values, K[a], what=f"choice rolled up to {a}")
            same = s["alts"] == [x for x in slots if x in s["alts"]]
            if same:
                close(cascading.array_av_cascade(d.data_av.values, graph)[:, slots.index(a)], A[a], what=f"availability array rolled up to {a}")
                close(cascading.array_ch_cascade(d.data_ch.values, graph)[:, slots.index(a)], K[a], what=f"choice array rolled up to {a}")


@check("P20", summary_spec, quick=300, numba=True)
def numba_summary(spec, ctx):
    """Model.choice_avail_summary of a numba model counts what the data hold."""
    s, av, ch = prepared(spec, ctx)
    m = C.numba(s, "ds")
    nested = bool(s["nests"])
    want, wt = expected(s, av, ch, nested)
    t = m.choice_avail_summary()
    judge(t, want, s, wt, {c: f"nest{c}" for c, _, _ in s["nests"]}, None, ctx)
    equal(np.asarray(m.dataset["ch"].values), ch, "choices after the summary")


sk_spec = st.fixed_dictionaries({
    "m": C.model_spec(nests="no", quantity="maybe", choice="single", weights="no", max_cases=5),     "dtype": st.sampled_from(["float64", "float32", "mixed"]), "y": st.sampled_from(["name", "series", "array"]), "wt": st.booleans(), "expr": st.booleans()})


@check("P20", sk_spec, quick=400)
def predictions(spec, ctx):
    """predict_proba, predict and score after fit agree with the probabilities of the model at its parameters."""
    import larch
    s = dict(spec["m"], uco={}, wt=None)
    if not s["uca"]:
        s["uca"] = [["b0", list(s["ca"])[0], 1.0]]
    s["values"] = {p: s["values"].get(p, 0.5) for p in C.params(s)}
    s["caseids"] = sorted(s["caseids"])
    av = np.ones((len(s["caseids"]), len(s["alts"])), dtype=int) if s["av"] is None else np.array(s["av"])
    n, J = av.shape
    for i in range(n):
        for j in range(J):
            if av.all() and s["ch"][i][j] == 0 and n > 1:
                av[i, j] = 0
    if not av.any(0).all() or av.all():        # fit reads sparse tables only
        return
    X = C.frame_ca(s)
    X["chosen_"] = np.array(s["ch"]).reshape(-1)
    if spec["expr"]:
        X = X.rename(columns={"time": "time_base"})
    X = X[av.reshape(-1).astype(bool)]
    if spec["dtype"] == "float32":
        X = X.astype(np.float32)
    elif spec["dtype"] == "mixed":
        X["count"] = 3
    u = dict(s, uca=[[p, "time_base+0" if spec["expr"] and k == "time" else k, f] for p, k, f in s["uca"]])
    m = C.define(larch.Model(), u)
    s2 = dict(s, av=av.tolist())
    y = {"name": "chosen_", "series": X["chosen_"], "array": X["chosen_"].values}[spec["y"]]
    before = X.copy()
    m.set_values(**s["values"])
    m.pf["holdfast"] = 1            # fit leaves the parameters where they are
    m.fit(X, y, quiet=True)
    require(X.equals(before), "fit changed its table")
    r = C.ref(s2)
    close(float(m.loglike()), r["ll"], what="loglike after fit")
    p = m.predict_proba(X)
    rows = [(c, a) for i, c in enumerate(s["caseids"]) for j, a in enumerate(s["alts"]) if av[i, j]]
    want = [r["P"][i, j] for i in range(n) for j in range(J) if av[i, j]]
    equal([tuple(map(int, k)) for k in p.index], rows, "rows of predict_proba")
    close(np.asarray(p).reshape(-1), want, what="predict_proba")
    y1 = X["chosen_"].values
    close(m.score(X, y), r["ll"] / n, what="score")
    if spec["wt"]:
        w = np.array([[0.5 + (i % 3)] * J for i in range(n)])[av > 0]
        lw = [0.5 + (i % 3) for i in range(n)]
        close(m.score(X, y, sample_weight=w), sum(a * b for a, b in zip(lw, r["llc"])) / sum(lw), what="weighted score")
        ctx.label("weighted score")
    q = m.predict(X)
    equal([tuple(map(int, k)) for k in q.index], rows, "rows of predict")
    got = {k: float(v) for k, v in zip(rows, np.asarray(q).reshape(-1))}
    for i, c in enumerate(s["caseids"]):
        pick = [a for j, a in enumerate(s["alts"]) if av[i, j] and got[c, a] == 1]
        require(len(pick) == 1 and sum(got[c, a] for j, a in enumerate(s["alts"]) if av[i, j]) == 1, f"prediction of case {c}", got)
        best = max(r["P"][i])
        close(r["P"][i, s["alts"].index(pick[0])], best, rtol=1e-5, what=f"probability of the alternative predicted for case {c}")
    # other cases
    half = X[X.index.get_level_values(0) != s["caseids"][0]]
    if len(half) and n > 1 and av[1:].any(0).all():
        p2 = m.predict_proba(half)
        k = len(rows) - len(half)
        equal([tuple(map(int, z)) for z in p2.index], rows[k:], "rows of predict_proba for some of the cases")
        close(np.asarray(p2).reshape(-1), want[k:], what="predict_proba for some of the cases")
        ctx.label("some cases")
    ctx.label(spec["dtype"], spec["y"])
    ctx.nontrivial(C.nontrivial(s2))
