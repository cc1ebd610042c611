"""What is written to files, pickled or copied comes back with the same content and is independent of the original."""
import os
import pickle
import tempfile
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close
from vt import choice as C
from vt.props.p12_dataframes import Truth, build, build_spec, content, verify, note


@st.composite
def file_spec(draw):
    s = draw(build_spec())
    s["crack"] = False
    how = draw(st.sampled_from(["dump", "feathers", "dump", "inject", "pickle"]))
    return {"d": s, "how": how, "ext": draw(st.sampled_from(["", ".gz", ".pkl", ".xz"])),
            "compress": draw(st.sampled_from([None, 0, 3, True])), "scale": draw(st.sampled_from([None, 2.0, 0.3, "auto"]))}


@check("P14", file_spec(), quick=400)
def dataframes_files(spec, ctx):
    from larch import DataFrames
    r = build(spec["d"], ctx)
    if r is None:
        return ctx.label("left out")
    d, tr, layout, parts, ca_cols, co_cols, _ = r
    note(spec["d"]["t"], tr, ctx)
    mass = None
    if "ch" in parts and spec["scale"] and tr.ch.any():
        w = tr.wt if "wt" in parts else np.ones(tr.n)
        mass = w[:, None] * tr.ch
        d.autoscale_weights() if spec["scale"] == "auto" else d.scale_weights(spec["scale"])
        parts = parts - {"ch", "wt"}
        ctx.label("weights rescaled")
    ctx.label("by " + spec["how"])
    with tempfile.TemporaryDirectory(dir=ctx.scratch) as folder:
        f = os.path.join(folder, "d" + spec["ext"])
        if spec["how"] == "dump":
            d.dump(f, **({} if spec["compress"] is None else {"compress": spec["compress"]}))
            g = DataFrames.load(f)
        elif spec["how"] == "feathers":
            d.to_feathers(f)
            g = DataFrames.from_feathers(f)
        elif spec["how"] == "inject":
            d.to_feathers(f)
            g = build(spec["d"], type(ctx)())[0]
            g.is_computational_ready(True) or setattr(g, "computational", True)
            if mass is not None:
                g.autoscale_weights() if spec["scale"] == "auto" else g.scale_weights(spec["scale"])
            for a in (g.array_ca(), g.array_co(), g.array_ce()):
                if a is not None:
                    a[:] = -99
            g.inject_feathers(f)
        else:
            return ctx.label("left out")
    if layout == "ce" and tr.exists.all() and g.data_ca is not None:
        layout = "ca"
    verify(g, tr, layout, parts, ca_cols, co_cols)
    equal(g.alternatives, d.alternatives, "alternatives")
    if mass is not None:
        w = np.ones(tr.n) if g.data_wt is None else g.data_wt.values.reshape(-1)
        close(w[:, None] * g.data_ch.values * g.weight_normalization, mass, 1e-6, 1e-9, "weights times choices")
        close(g.weight_normalization, d.weight_normalization, 1e-9, 0, "weight normalization")


@st.composite
def model_case(draw):
    engine = draw(st.sampled_from(["legacy", "numba", "legacy"]))
    m = draw(C.model_spec(nests="maybe", cross=engine == "legacy", max_cases=3, max_alts=4))
    return {"m": m, "engine": engine,
            "route": draw(st.sampled_from(["pickle", "cloudpickle", "copy", "dumps", "xlsx", "model", "load", "deepcopy"])),
            "title": draw(st.sampled_from([None, "a title", "T 1"])),
            "hold": draw(st.integers(0, 5)), "lo": draw(st.integers(0, 5)), "pin": draw(st.booleans()),
            "cons": draw(st.integers(0, 3)) if engine == "legacy" else draw(st.sampled_from([0] * 15 + [1])),  # each one is compiled
            "order": draw(st.booleans()), "best": draw(st.booleans()),
            "fmt": draw(st.sampled_from(["ca", "ce"])), "edit": draw(st.integers(0, 9)), "twice": draw(st.booleans())}


def parameters_of(m):
    pf = m.pf
    return {n: {k: pf.loc[n, k] for k in ("value", "initvalue", "nullvalue", "minimum", "maximum", "holdfast")} for n in pf.index}


def same_parameters(got, want, what):
    equal(sorted(got), sorted(want), what + ": names")
    for n in want:
        for k, v in want[n].items():
            g = got[n][k]
            require(g == v or (g != g and v != v), what, "differ:", n, k, g, v)


def outline(m):
    g = m.graph
    return {"nodes": sorted(g.nodes), "edges": sorted(g.edges), "names": {n: g.nodes[n].get("name") for n in g.nodes},
            "params": {n: g.nodes[n].get("parameter") for n in g.nodes}, "root": g.root_id,
            "sort": list(g.standard_sort),
            "constraints": [repr(c) for c in m.constraints], "title": m.title,
            "ordering": repr(m.ordering),
            "utility_co": {k: repr(v) for k, v in m.utility_co.items()}, "utility_ca": repr(m.utility_ca),
            "quantity_ca": repr(m.quantity_ca), "quantity_scale": repr(m.quantity_scale),
            "roles": {k: getattr(m, k) for k in ("choice_ca_var", "choice_co_code", "choice_co_vars", "weight_co_var",
                                                  "availability_var", "availability_co_vars", "choice_any", "availability_any")}}


@check("P14", model_case(), quick=350, numba=True)
def model_copies(spec, ctx):
    import larch
    s = spec["m"]
    ctx.nontrivial(C.nontrivial(s))
    ctx.label(*C.labels(s))
    ctx.label(spec["engine"] + " by " + spec["route"])
    numba = spec["engine"] == "numba"
    m = C.numba(s) if numba else C.legacy(s, spec["fmt"], "load")
    names = list(m.pf.index)
    if not names:
        return ctx.label("no parameters")
    if spec["title"]:
        m.title = spec["title"]
    a, b = names[spec["hold"] % len(names)], names[spec["lo"] % len(names)]
    v = m.pf.loc[b, "value"]
    m.set_value(b, v, minimum=v - 3, maximum=v + 2)
    if spec["pin"]:
        m.lock_value(a, m.pf.loc[a, "value"])
    if spec["cons"] and len(names) > 1:
        from larch.model.constraints import OrderingBound, RatioBound, FixedBound
        c = names[(spec["hold"] + 1) % len(names)]
        if c != a:
            ratio = m.pf.loc[c, "minimum"] >= 0 or m.pf.loc[c, "maximum"] <= 0
            m.constraints = [OrderingBound(a, c), RatioBound(a, c, min_ratio=0.1, max_ratio=5) if ratio
                             else OrderingBound(c, a), FixedBound(c, minimum=-9)][:spec["cons"]]
            ctx.label("with constraints")
    if spec["order"]:
        m.ordering = (("Some", names[0]), ("Rest", ".*"))
    r = C.ref(s)
    if spec["best"]:
        m.loglike()
    want, par = outline(m), parameters_of(m)
    route = spec["route"]
    with tempfile.TemporaryDirectory(dir=ctx.scratch) as folder:
        one = m
        for _ in range(2 if spec["twice"] else 1):
            if route in ("pickle", "deepcopy"):
                import copy
                k = pickle.loads(pickle.dumps(one)) if route == "pickle" else copy.deepcopy(one)
            elif route == "cloudpickle":
                import cloudpickle
                k = cloudpickle.loads(cloudpickle.dumps(one))
            elif route == "copy":
                k = one.copy()
            elif route == "dumps":
                k = pickle.loads(one.dumps())
            elif route == "model":
                k = type(one)(one)
            elif route == "xlsx":
                f = os.path.join(folder, "m.xlsx")
                m.to_xlsx(f)
                k = type(m).load(f)
            else:
                f = os.path.join(folder, "m.pkl")
                with open(f, "wb") as out:
                    pickle.dump(one, out)
                k = type(one).load(f)
            one = k
    require(type(k) is type(m), "the copy is a", type(k))
    got = outline(k)
    for key in want:
        equal(got[key], want[key], key)
    same_parameters(parameters_of(k), par, "parameters of the copy")
    if numba:
        if k.datatree is None:
            k.datatree = C.dataset(s)
    else:
        if k.dataservice is None:
            k.dataservice = C.dataframes(s, spec["fmt"])
        k.load_data(autoscale_weights=False)
    close(k.loglike(), r["ll"], what="log likelihood of the copy")
    o, ko = C.in_order(k, s), (slice(None) if numba else C.case_order(s))
    close(k.probability()[:, o], r["P"][ko], what="probability of the copy")
    same_parameters(parameters_of(k), par, "parameters of the copy after use")
    equal([repr(c) for c in k.constraints], want["constraints"], "constraints of the copy after use")
    # changes of one are not changes of the other
    e = spec["edit"]
    first, second = (m, k) if e % 2 else (k, m)
    n = names[e % len(names)]
    if e < 4:
        first.set_value(n, first.pf.loc[n, "value"] + 0.5, holdfast=1)
        first.loglike()
    elif e < 6:
        from larch import P, X
        first.utility_co[s["alts"][0]] = first.utility_co[s["alts"][0]] + P("another")
        try:
            first.unmangle()
        except larch.exceptions.MissingDataError:
            pass
    elif e < 8:
        first.constraints = []
        first.title = "changed"
    else:
        first.graph.new_node(parameter="mu_new", children=[s["alts"][0]], name="new nest")
        first.unmangle()
    equal(outline(second), want, "the other model after a change of one")
    same_parameters(parameters_of(second), par, "parameters of the other model after a change of one")
    close(second.loglike(), r["ll"], what="log likelihood of the other model after a change of one")
