"""The doctor: diagnoses what is wrong with the data, and repairs that and nothing else."""
import copy
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close
from vt import choice as C

byte = st.integers(0, 255)
spots = st.lists(st.tuples(byte, byte), max_size=3)
sick = st.fixed_dictionaries({
    "m": st.one_of(C.model_spec(nests="maybe", quantity="no", max_cases=5, max_alts=4),
                   C.model_spec(nests="maybe", quantity="yes", max_cases=5, max_alts=4)),
    "fmt": st.sampled_from(["ca", "ca", "ce"]), "how": st.sampled_from(["frames", "direct", "load"]),
    "not_available": spots, "no_choice": st.lists(byte, max_size=2), "nan_weight": st.lists(byte, max_size=2),
    "nan_co": spots, "zero_quantity": spots, "flat": st.integers(0, 3), "sort": st.booleans(),
    "av": st.sampled_from(["int8", "int8", "bool", "float64", "mixed"]), "choice": st.sampled_from(["float64", "float64", "float32", "mixed"]),
    "again": st.booleans(), "verbose": st.integers(1, 4),
    "repair": st.fixed_dictionaries({
        "ch_av": st.sampled_from([None, "+", "-"]), "ch_zq": st.sampled_from([None, "-"]),
        "noch_nowt": st.sampled_from([None, "-", "*"]), "nan_wt": st.sampled_from([None, True]), "nan_data_co": st.sampled_from([None, True])})})


def infect(spec):
    s = copy.deepcopy(spec["m"])
    if spec["sort"]:
        s["caseids"] = sorted(s["caseids"])
    n, J = len(s["caseids"]), len(s["alts"])
    if spec["not_available"] and s["av"] is None:
        s["av"] = [[1] * J for _ in range(n)]
    for c, j in spec["not_available"]:
        s["av"][c % n][j % J] = 0
        if c % 5 == 0:
            s["ch"][c % n][j % J] = 1.0
    for c in spec["no_choice"]:
        s["ch"][c % n] = [0.0] * J
    if spec["nan_weight"]:
        s["wt"] = s["wt"] or [1.0] * n
        for c in spec["nan_weight"]:
            s["wt"][c % n] = float("nan")
    for k, c in spec["nan_co"]:
        s["co"][list(s["co"])[k % len(s["co"])]][c % n] = float("nan")
    if spec["flat"] >= 2:
        k = list(s["co"])[0]
        s["co"][k] = [s["co"][k][0] + 0.01 * (i % 2) * (spec["flat"] - 2) for i in range(n)]
    for c, j in spec["zero_quantity"]:
        for k, (_, q) in enumerate(s["qca"]):
            if k == 0 or c % 3:
                s["ca"][q][c % n][j % J] = 0.0
        if s["qca"] and c % 2 and (s["av"] is None or s["av"][c % n][j % J]):
            s["ch"][c % n][j % J] = s["ch"][c % n][j % J] or 1.0
    return s


def dtypes(f, kind, other):
    if kind != "mixed":
        return f.astype(kind)
    return f.astype({c: other for c in list(f.columns)[::2]})


def where(cells, verbose):
    """What a table of bad cells is reported as: {alternative: (number, first rows)}"""
    return {a: (len(r), ", ".join(str(i) for i in r[:verbose])) for a, r in cells.items() if len(r)}


def table(diag):
    return {} if diag is None else {a: (int(r["n"]), r["example rows"]) for a, r in diag.iterrows()}


class Patient:
    """The data in the order the frames hold them."""

    def __init__(self, s):
        o = C.case_order(s)
        self.s = s
        n, J = len(s["caseids"]), len(s["alts"])
        self.av = np.array(s["av"] if s["av"] is not None else np.ones([n, J]))[o]
        self.ch = np.array(s["ch"])[o]
        self.wt = None if s["wt"] is None else np.array(s["wt"], dtype=float)[o]
        self.co = {k: np.array(v, dtype=float)[o] for k, v in s["co"].items()}
        self.q = np.zeros([n, J])
        for _, q in s["qca"]:
            self.q = self.q + np.array(s["ca"][q])[o]
        self.order = o

    def chosen(self, mask):
        bad = mask & (self.ch > 0)
        return bad, {a: np.where(bad[:, j])[0] for j, a in enumerate(self.s["alts"])}

    def examine(self, repair, verbose, quantity):
        found = {}
        if quantity:
            bad, cells = self.chosen((self.q == 0) & (self.av != 0))
            if bad.any():
                found["chosen_but_zero_quantity"] = where(cells, verbose)
                if repair["ch_zq"] == "-":
                    self.ch[bad] = 0
        bad, cells = self.chosen(self.av == 0)
        if bad.any():
            found["chosen_but_not_available"] = where(cells, verbose)
            if repair["ch_av"] == "+":
                self.av[bad] = 1
            elif repair["ch_av"] == "-":
                self.ch[bad] = 0
        if self.wt is not None:
            with np.errstate(all="ignore"):
                bad = (self.ch.sum(1) == 0) & (self.wt > 0)
            if bad.any():
                found["nothing_chosen_but_nonzero_weight"] = where({"nothing_chosen_some_weight": np.where(bad)[0]}, verbose)
                if repair["noch_nowt"]:
                    self.wt[self.ch.sum(1) == 0] = 0
            bad = np.isnan(self.wt)
            if bad.any():
                found["nan_weight"] = where({"nan_weight": np.where(bad)[0]}, verbose)
        return found


@check("P22", sick, quick=900)
def doctors(spec, ctx):
    """Every problem is found and counted; a repair removes what it names and leaves all else."""
    import larch
    from larch.troubleshooting import doctor
    s = infect(spec)
    rep, verbose, how = spec["repair"], spec["verbose"], spec["how"]
    whole = s["av"] is None or np.any(s["av"], axis=1).all()      # idce data say nothing of a case without alternatives
    d0 = C.dataframes(s, spec["fmt"] if whole else "ca")
    av, ch = C.frame_jj(s, "av", np.int8), C.frame_jj(s, "ch", float)
    kw = dict(co=d0.data_co, alt_codes=list(s["alts"]), av=dtypes(av, spec["av"], "bool"), ch=dtypes(ch, spec["choice"], "float32"))
    if d0.data_ce is not None:
        kw["ce"] = d0.data_ce
    else:
        kw["ca"] = d0.data_ca
    kw = {k: v.copy() if hasattr(v, "columns") else v for k, v in kw.items()}
    if s["wt"] is not None:
        kw["wt"] = pd.DataFrame({"wt": np.array(s["wt"], dtype=float)}, index=C.idx_case(s))
    d = larch.DataFrames(**kw)
    m = None
    if how == "frames":
        target = d
    else:
        m = larch.Model(dataservice=d) if how == "load" else larch.Model()
        C.define(m, s)
        if how == "direct":
            m.initialize_graph(alternative_codes=list(s["alts"]))
            C.add_nests(m, s)
            m.dataframes = d
        else:
            C.add_nests(m, s)
            m.load_data(autoscale_weights=False)
        C.apply_values(m, s)
        target = m
    ctx.label(how, "ca" if d0.data_ce is None else "ce", "availability " + spec["av"], "choice " + spec["choice"])
    want = Patient(s)
    before = want.av.copy()
    quantity = bool(s["qca"]) and m is not None
    expect = want.examine(rep, verbose, quantity)
    if how == "frames":
        out, problems = doctor(target, **{"repair_" + k: v for k, v in rep.items()}, verbose=verbose)
    else:
        out, problems = m.doctor(**{"repair_" + k: v for k, v in rep.items()}, verbose=verbose)
    ctx.nontrivial(bool(expect))
    require(out is target, "the result is not the patient")
    f = d if m is None else m.dataframes
    for k in ("chosen_but_zero_quantity", "chosen_but_not_available", "nothing_chosen_but_nonzero_weight", "nan_weight"):
        ctx.label(*([k] if k in expect else []))
        equal(table(problems.get(k)), expect.get(k, {}), k)
    # data of cases
    columns = {k: v for k, v in want.co.items() if f.data_co is not None and k in f.data_co.columns}
    bad = {k: int(np.isnan(v).sum()) for k, v in columns.items() if np.isnan(v).any()}
    got = problems.get("nan_data_co")
    if bad:
        ctx.label("nan_data_co")
        require(got is not None, "missing values of data_co are not reported")
        got = got.iloc[:, 0].to_dict()
        require(len(got) == min(verbose, len(bad)) and all(bad.get(k) == v for k, v in got.items()), f"nan_data_co: {got}, not {bad}")
    else:
        require(got is None, f"nan_data_co: {got}")
    if rep["nan_data_co"]:
        columns = {k: np.nan_to_num(v) for k, v in columns.items()}
    if rep["nan_wt"] and want.wt is not None:
        want.wt = np.nan_to_num(want.wt)
    flat = [k for k, v in columns.items() if np.isfinite(v).sum() > 1 and np.var(v[np.isfinite(v)], ddof=1) < 1e-3]
    got = problems.get("low_variance_data_co")
    if flat:
        ctx.label("low_variance_data_co")
        require(got is not None and int(got["n"].iloc[0]) == len(flat), f"low variance: {got}, not {flat}")
    else:
        require(got is None, f"low variance: {got}")
    # the data afterwards
    cols = list(f.data_ch.columns)[:len(s["alts"])]
    equal(cols, list(s["alts"]), "columns")
    J = len(cols)
    equal((f.data_av.values[:, :J] != 0).tolist(), (want.av != 0).tolist(), "availability")
    scale = 1.0
    if rep["noch_nowt"] == "*" and "nothing_chosen_but_nonzero_weight" in expect:
        # weights hidden in the choices go into the weights, which then have an average of one
        ctx.label("weights scaled")
        tot = want.ch.sum(1)
        if not np.nansum(want.wt * tot):
            return
        if ((tot < 0.99999999) | (tot > 1.00000001)).any():
            want.ch = want.ch / np.where(tot == 0, 1.0, tot)[:, None]
            want.wt = want.wt * tot
        scale = len(want.wt) / np.nansum(want.wt)
        want.wt = want.wt * scale
    close(f.data_ch.values[:, :J].astype(float), want.ch, what="choices", rtol=1e-6)
    for k, v in columns.items():
        close(f.data_co[k].values, v, what="data of cases")
    if want.wt is not None:
        w = f.data_wt.values.reshape(-1)
        close(w, want.wt, what="weights")
    if m is None:
        return
    # and the model sees them
    t = dict(s)
    back = np.argsort(want.order)
    t["av"], t["ch"] = (want.av != 0).astype(int)[back].tolist(), want.ch[back].tolist()
    t["wt"] = None if want.wt is None else (want.wt / scale)[back].tolist()     # loglike is in the units of the original weights
    t["co"] = dict(s["co"], **{k: v[back].tolist() for k, v in columns.items()})
    if not (want.av != 0).any(1).all() or (s["qca"] and (want.q == 0).any()) or any(np.isnan(v).any() for v in columns.values()):
        return
    if t["wt"] is not None and np.isnan(t["wt"]).any():
        return
    if ((want.av == 0) & (want.ch > 0)).any() or (d0.data_ce is not None and (want.av != before).any()):
        return
    ctx.label("loglike afterwards")
    r = C.ref(t)
    close(m.loglike(), r["ll"], what="loglike after the repair")
    if spec["again"]:
        _, problems = m.doctor()
        left = set(problems) - {"low_variance_data_co"}
        if rep["noch_nowt"] is None:
            left -= {"nothing_chosen_but_nonzero_weight"}
        require(not left, f"problems remain: {left}")
