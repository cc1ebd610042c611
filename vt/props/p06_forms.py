"""One model, the data given in every form the library accepts: the results are those of
the closed form, loading again changes nothing, and the source is left as it was."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, close, require, equal
from vt import choice as C


@st.composite
def form(draw, engine):
    layout = draw(st.sampled_from(["ca", "ce", "co"] if engine == "compiled" else
                                  ["ca", "ce", "co", "transposed", "legacy", "legacy ce", "tree"]))
    m = draw(C.model_spec(nests="maybe", quantity="no" if layout == "co" else "maybe"))
    if not (engine == "compiled" and layout == "co"):
        # that combination is rejected unless the codes are in order
        perm = draw(st.permutations(range(len(m["alts"]))))
        m["alts"] = [m["alts"][i] for i in perm]
    single = m["chkind"] == "single"
    absent = draw(st.booleans())
    if absent and single:
        # one alternative is never available
        k = draw(st.integers(0, len(m["alts"]) - 1))
        n, J = len(m["caseids"]), len(m["alts"])
        av = [list(r) for r in m["av"]] if m["av"] is not None else [[1] * J for _ in range(n)]
        ch = [list(r) for r in m["ch"]]
        for i in range(n):
            av[i][k] = 0
            if ch[i][k]:
                other = next((j for j in range(J) if j != k and av[i][j]), (k + 1) % J)
                av[i][other] = 1
                ch[i][other], ch[i][k] = ch[i][k], 0
        m["av"], m["ch"] = av, ch
    ch = draw(st.sampled_from(["ca", "co", "code"] if single else ["ca", "co"]))
    av = draw(st.sampled_from(["ca", "co"]))
    if layout == "co":
        ch = "co" if ch == "ca" else ch
        av = "co"
    return {"m": m, "layout": layout, "ch": ch, "av": av, "wt": draw(st.booleans()),
            "again": draw(st.booleans()), "autoscale": draw(st.booleans()),
            "rows": draw(st.integers(0, 2)), "all_rows": draw(st.booleans()), "names": draw(st.booleans()),
            "absent": absent}


def prepare(spec):
    """(specification with utilities as they will be written, case frame, case-alternative frame)."""
    s = spec["m"]
    n, J = len(s["caseids"]), len(s["alts"])
    av = np.array(s["av"]) if s["av"] is not None else np.ones([n, J], dtype=int)
    ch = np.array(s["ch"])
    co = C.frame_co(s)
    ca = C.frame_ca(s)
    if spec["ch"] == "ca":
        ca["chosen"] = ch.reshape(-1)
    elif spec["ch"] == "co":
        for j, a in enumerate(s["alts"]):
            co[f"ch_{a}"] = ch[:, j]
    else:
        # a case in which nothing is chosen has a code that no alternative has
        co["choice"] = [s["alts"][int(np.argmax(r))] if r.any() else 99 for r in ch]
    if spec["av"] == "ca":
        ca["avail"] = av.reshape(-1)
    else:
        for j, a in enumerate(s["alts"]):
            co[f"av_{a}"] = av[:, j]
    if s["wt"] is not None:
        co["w"] = np.array(s["wt"], dtype=float)
    t = dict(s)
    if spec["layout"] == "co":
        uco = {a: list(v) for a, v in s["uco"].items()}
        for p, name, sc in s["uca"]:
            for j, a in enumerate(s["alts"]):
                col = f"{name}_{a}"
                co[col] = [row[j] for row in s["ca"][name]]
                uco.setdefault(a, []).append([p, col, sc])
        t["uca"], t["uco"] = [], uco
    return t, co, ca, av


def roles(m, spec):
    s = spec["m"]
    if spec["ch"] == "ca":
        m.choice_ca_var = "chosen"
    elif spec["ch"] == "co":
        m.choice_co_vars = {a: f"ch_{a}" for a in s["alts"]}
    else:
        m.choice_co_code = "choice"
    if spec["av"] == "ca":
        m.availability_var = "avail"
    else:
        m.availability_co_vars = {a: f"av_{a}" for a in s["alts"]}
        if spec["absent"] and s["av"] is not None:
            # always and never available, in as many words or in none
            for j, a in enumerate(s["alts"]):
                col = {row[j] for row in s["av"]}
                if col == {1}:
                    m.availability_co_vars[a] = "1"
                elif col == {0}:
                    del m.availability_co_vars[a]
    if s["wt"] is not None:
        m.weight_co_var = "w"


def sparse(spec, ca, av):
    """Rows of the available alternatives, or of all with some marked unavailable, in one of several orders."""
    ce = ca if spec["all_rows"] else ca[av.reshape(-1).astype(bool)]
    if spec["rows"] == 1:
        ce = ce.sort_index()
    return ce


def build(spec, engine):
    import larch
    s = spec["m"]
    t, co, ca, av = prepare(spec)
    lay = spec["layout"]
    every = spec["all_rows"] or av.any(0).all()
    if engine == "compiled" or lay.startswith("legacy"):
        kw = {"co": co, "alt_codes": sorted(s["alts"])}
        if spec["names"]:
            kw["alt_names"] = [f"alt {a}" for a in sorted(s["alts"])]
        if lay in ("ca", "legacy") or (lay in ("ce", "legacy ce") and not every):
            kw["ca"] = ca
        elif lay in ("ce", "legacy ce"):
            kw["ce"] = sparse(spec, ca, av)
        source = larch.DataFrames(**kw)
    else:
        from larch.numba import Dataset, DataTree
        from xarray import DataArray
        coords = {"_caseid_": np.array(s["caseids"]), "_altid_": np.array(s["alts"])}
        if lay == "ce" and every:
            sp = sparse(spec, ca, av)
            source = Dataset.construct.from_idce(sp, crack=False)
            cos = co.loc[source.dc.caseids()]
            source = source.assign({k: (source.dc.CASEID, cos[k].values) for k in cos.columns})
        elif lay == "co":
            alts = {a: f"alt {a}" for a in s["alts"]} if spec["names"] else list(s["alts"])
            source = Dataset.construct.from_idco(co, alts=alts)
        elif lay == "tree":
            # data of cases live in another table, found by a key
            ds = {k: DataArray(ca[k].values.reshape(av.shape), dims=["_caseid_", "_altid_"]) for k in ca}
            k = len(co)
            order = [(7 * i + 3) % k for i in range(k)] if k % 7 else list(range(k))[::-1]
            pos = np.argsort(order)
            ds["key"] = DataArray(pos + 100, dims=["_caseid_"])
            main = Dataset(ds, coords=coords)
            main.dc.CASEID, main.dc.ALTID = "_caseid_", "_altid_"
            other = Dataset({c: DataArray(co[c].values[order], dims=["hh"]) for c in co}, coords={"hh": np.arange(k) + 100})
            source = DataTree(main=main)
            source.add_dataset("people", other, relationships="main.key @ people.hh")
        else:
            ds = {k: DataArray(ca[k].values.reshape(av.shape), dims=["_caseid_", "_altid_"]) for k in ca}
            if lay == "transposed":
                ds = {k: (v.transpose("_altid_", "_caseid_") if i % 2 else v) for i, (k, v) in enumerate(reversed(ds.items()))}
            ds.update({k: DataArray(co[k].values, dims=["_caseid_"]) for k in co})
            source = Dataset(ds, coords=coords)
            source.dc.CASEID, source.dc.ALTID = "_caseid_", "_altid_"
    if engine == "compiled":
        m = larch.Model(dataservice=source)
    elif lay.startswith("legacy"):
        from larch.numba import Model
        m = Model(dataservice=source)
    else:
        from larch.numba import Model
        m = Model(datatree=source)
    C.define(m, t)
    roles(m, spec)
    if s["nests"]:
        C.add_nests(m, s)
    return m, source, every


def snap(source):
    """A copy of the numbers in a source of data."""
    out = {}
    if hasattr(source, "data_co"):
        for k in ("data_co", "data_ca", "data_ce"):
            d = getattr(source, k)
            if d is not None:
                out[k] = d.copy(deep=True)
    else:
        for name, ds in (source.subspaces.items() if hasattr(source, "subspaces") else [("main", source)]):
            for k in ds.variables:
                out[name + "." + str(k)] = np.array(ds[k].values, copy=True)
    return out


def run(spec, ctx, engine):
    s = spec["m"]
    ctx.nontrivial(C.nontrivial(s))
    ctx.label(*C.labels(s), "layout " + spec["layout"], "choice by " + spec["ch"], "availability by " + spec["av"])
    if s["alts"] != sorted(s["alts"]):
        ctx.label("alternatives not in order")
    m, source, every = build(spec, engine)
    before = snap(source)
    r = C.ref(s)
    load = engine == "compiled" or spec["layout"].startswith("legacy")
    for turn in range(1 + spec["again"]):
        if load:
            m.load_data(autoscale_weights=spec["autoscale"])
        elif turn:
            m.mangle()
        if engine == "numba":
            m.unmangle()
        C.apply_values(m, s)
        o = C.in_order(m, s)
        ids = sorted(s["caseids"])
        if engine == "numba" and not load:
            ids = list(m.dataset.dc.caseids())
            equal(sorted(ids), sorted(s["caseids"]), "cases")
        k = [s["caseids"].index(i) for i in ids]
        what = f" at load {turn + 1}"
        close(m.loglike(), r["ll"], what="loglike" + what)
        close(m.probability()[:, o], r["P"][k], what="probability" + what)
        close(m.utility()[:, o], r["U"][k], what="utility" + what)
        close(m.logsums(), r["logsum"][k], what="logsums" + what)
        equal(int(m.n_cases), len(s["caseids"]), "n_cases")
        if spec["autoscale"] and load:
            pass
        elif s["wt"] is not None:
            close(m.total_weight(), sum(s["wt"]), what="total weight" + what)
    after = snap(source)
    # a tree may gain the positions it worked out for its keys, and nothing else may change
    missing = sorted(set(before) - set(after))
    require(not missing, "loading removed", missing, "from the source")
    for key in before:
        b, a = before[key], after[key]
        if hasattr(b, "columns"):
            require(b.equals(a), key, "of the source was changed by loading\n", b, "\n", a)
        else:
            equal(a, b, key + " of the source")


@check("P06", form("compiled"), quick=1200)
def compiled_engine(spec, ctx):
    run(spec, ctx, "compiled")


@check("P06", form("numba"), quick=300, thorough=4000, numba=True)
def numba_engine(spec, ctx):
    run(spec, ctx, "numba")
