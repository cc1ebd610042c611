"""Generated discrete choice models: specification, reference values, and the
same model built with either engine of larch.

A specification is a plain dict:
  alts     list of alternative codes, in data order
  caseids  list of case ids, in data order
  co       {name: [n]}             data of cases
  ca       {name: [[n x J]]}       data of case-alternatives
  av       [[n x J]] of 0/1 or None
  ch       [[n x J]] choice amounts (0 where not available)
  wt       [n] or None
  uca      [[param, name, scale]]
  uco      {alt: [[param, name or None, scale]]}
  qca      [[param, name]]         size terms (data of these is positive)
  theta    param or None           scale of the size terms
  nests    [[code, mu param, [children]]], children before parents
  values   {param: value}
"""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from .gen import GRID

CO = ["inc", "hhsize", "one"]
CA = ["time", "cost", "dist"]
QV = ["emp", "area"]
BETA = ["b0", "b1", "b2", "b3", "b4"]
MUS = ["mu0", "mu1", "mu2"]
MUVAL = [1.0, 0.5, 0.75, 0.25, 0.9, 1.25]
SCALE = [1.0, 2.0, -1.0, 0.5]
POS = [1.0, 2.0, 0.5, 4.0, 0.25, 3.0, 10.0, 1.5]
WTS = [1.0, 2.0, 0.5, 3.0, 0.0, 0.25, 1.0, 1.0]
CH_FRAC = [0.5, 0.25, 1.0, 2.0, 0.75, 1.5, 1.0, 3.0]


def _take(draw, n):
    return draw(st.binary(min_size=n, max_size=n))


@st.composite
def model_spec(draw, nests="no", quantity="maybe", cross=False, max_cases=5, max_alts=5,
               choice="any", weights="any", unavailable=True, shared_mu=True, shift=False):
    """nests: "no", "maybe", "yes"; choice: "any", "single"; weights: "any", "no"."""
    J = draw(st.integers(2, max_alts))
    n = draw(st.integers(1, max_cases))
    alts = sorted(draw(st.lists(st.integers(1, 12), min_size=J, max_size=J, unique=True)))
    caseids = draw(st.lists(st.integers(1, 99), min_size=n, max_size=n, unique=True))
    spec = {"alts": alts, "caseids": caseids}
    nco = draw(st.integers(1, 3))
    nca = draw(st.integers(1, 3))
    b = _take(draw, nco * n)
    spec["co"] = {CO[i]: [GRID[x % 16] for x in b[i * n:(i + 1) * n]] for i in range(nco)}
    b = _take(draw, nca * n * J)
    spec["ca"] = {CA[i]: [[GRID[x % 16] for x in b[(i * n + c) * J:(i * n + c + 1) * J]] for c in range(n)]
                  for i in range(nca)}
    # availability
    if unavailable and draw(st.booleans()):
        b = _take(draw, n * (J + 1))
        av = []
        for c in range(n):
            row = [1 if b[c * (J + 1) + j] % 3 else 0 for j in range(J)]
            if not any(row):
                row[b[c * (J + 1) + J] % J] = 1
            av.append(row)
        spec["av"] = av
    else:
        spec["av"] = None
    av = spec["av"] or [[1] * J for _ in range(n)]
    # choices
    kind = "single" if choice == "single" else draw(st.sampled_from(["single", "single", "several", "fraction"]))
    ch = []
    b = _take(draw, n * J)
    for c in range(n):
        row = [0.0] * J
        ok = [j for j in range(J) if av[c][j]]
        r = b[c * J:(c + 1) * J]
        if kind == "single":
            row[ok[r[0] % len(ok)]] = 1.0
        elif kind == "fraction":
            parts = [1 + r[i] % 4 for i in range(len(ok))]
            k = 1 + r[-1] % len(ok)
            for i in range(k):
                row[ok[i]] = parts[i] / sum(parts[:k])
        else:
            for i, j in enumerate(ok):
                if r[i] % 2:
                    row[j] = CH_FRAC[(r[i] // 2) % 8]
        ch.append(row)
    spec["ch"] = ch
    spec["chkind"] = kind
    if weights == "any" and draw(st.booleans()):
        w = [WTS[x % 8] for x in _take(draw, n)]
        spec["wt"] = w
    else:
        spec["wt"] = None
    if not any(sum(row) * w for row, w in zip(ch, spec["wt"] or [1.0] * n)):
        # something is chosen in a case that counts
        if not any(ch[0]):
            ch[0][av[0].index(1)] = 1.0
        if spec["wt"] is not None:
            spec["wt"][0] = 1.0
    # utility
    spec["uca"] = []
    used = set()
    k = draw(st.integers(0, 3))
    for x, y, z in zip(_take(draw, k), _take(draw, k), _take(draw, k)):
        spec["uca"].append([BETA[x % 5], CA[y % nca], SCALE[z % 4]])
    spec["uco"] = {}
    order = list(range(J))
    for j in order:
        k = draw(st.integers(0, 3)) if j else 0
        terms = []
        for x, y, z in zip(_take(draw, k), _take(draw, k), _take(draw, k)):
            var = None if y % 3 == 0 else CO[(y // 3) % nco]
            terms.append([BETA[x % 5], var, SCALE[z % 4]])
        if terms:
            spec["uco"][alts[j]] = terms
    if not spec["uca"] and not spec["uco"]:
        spec["uca"].append(["b0", CA[0], 1.0])
    # size
    spec["qca"], spec["theta"] = [], None
    if quantity == "yes" or (quantity == "maybe" and draw(st.integers(0, 3)) == 3):
        nq = draw(st.integers(1, 2))
        same = draw(st.integers(0, 1))
        for i in range(nq):
            b = _take(draw, n * J)
            spec["ca"][QV[i]] = [[POS[x % 8] for x in b[c * J:(c + 1) * J]] for c in range(n)]
            spec["qca"].append([["q0", "q1"][i & same], QV[i]])
        if draw(st.booleans()):
            spec["theta"] = "theta"
    # nests
    spec["nests"] = []
    if nests == "yes" or (nests == "maybe" and draw(st.booleans())):
        top = list(alts)
        k = draw(st.integers(1, 3))
        for i in range(k):
            b = _take(draw, len(top) + 2)
            kids = [t for t, x in zip(top, b[2:]) if x % 2] or [top[b[0] % len(top)]]
            if len(kids) == len(top) and len(top) > 1:
                kids = kids[:-1]
            code = 20 + (b[1] % 7) + 10 * i
            mu = MUS[b[0] % 3 if shared_mu else i]
            if cross and i > 0 and draw(st.booleans()):
                extra = [t for t in alts if t not in kids]
                nested = set()
                for nc, _, ks in spec["nests"]:
                    if nc in kids:
                        nested.update(ks)
                extra = [t for t in extra if t not in nested and t not in top]
                if extra:
                    kids = kids + [extra[b[1] % len(extra)]]
            spec["nests"].append([code, mu, kids])
            top = [t for t in top if t not in kids] + [code]
            if len(top) < 2:
                break
    big = draw(st.sampled_from([0.0, 0.0, 300.0, 650.0, 900.0, -650.0, -900.0])) if shift else 0.0
    if big:
        for a in alts:
            spec["uco"].setdefault(a, []).append(["shift", None, 1.0])
    values = {}
    names = params(spec)
    b = _take(draw, len(names))
    for p, x in zip(names, b):
        if p == "shift":
            values[p] = big
        elif p.startswith("mu") or p == "theta":
            values[p] = MUVAL[x % 6]
        else:
            values[p] = GRID[x % 16]
    spec["values"] = values
    return spec


def params(spec):
    names = []
    for p, _, _ in spec["uca"]:
        names.append(p)
    for t in spec["uco"].values():
        names += [p for p, _, _ in t]
    names += [p for p, _ in spec["qca"]]
    if spec["theta"]:
        names.append(spec["theta"])
    names += [m for _, m, _ in spec["nests"]]
    return sorted(set(names))


# ---------------------------------------------------------------- reference

def ref_utility(spec, values=None, with_size=True):
    """[n x J] utility, -inf where not available."""
    v = values or spec["values"]
    n, J = len(spec["caseids"]), len(spec["alts"])
    U = np.zeros([n, J])
    for p, name, s in spec["uca"]:
        U += v[p] * s * np.array(spec["ca"][name], dtype=float)
    for alt, terms in spec["uco"].items():
        j = spec["alts"].index(alt)
        for p, name, s in terms:
            U[:, j] += v[p] * s * (np.array(spec["co"][name], dtype=float) if name is not None else 1.0)
    if spec["qca"] and with_size:
        Q = ref_quantity(spec, v)
        U += (v[spec["theta"]] if spec["theta"] else 1.0) * np.log(Q)
    if spec["av"] is not None:
        U[np.array(spec["av"]) == 0] = -np.inf
    return U


def ref_quantity(spec, values=None):
    v = values or spec["values"]
    Q = 0
    for p, name in spec["qca"]:
        Q = Q + math.exp(v[p]) * np.array(spec["ca"][name], dtype=float)
    return Q


def tree(spec):
    """(nodes in order children first, children, mu name); root is 0."""
    children = {code: list(k) for code, _, k in spec["nests"]}
    mu = {code: m for code, m, _ in spec["nests"]}
    has_parent = {x for k in children.values() for x in k}
    children[0] = [x for x in list(spec["alts"]) + [c for c, _, _ in spec["nests"]] if x not in has_parent]
    order = [c for c, _, _ in spec["nests"]] + [0]
    return order, children, mu


def ref(spec, values=None):
    """Reference results as a dict of arrays."""
    v = values or spec["values"]
    U = ref_utility(spec, v)
    n, J = U.shape
    order, children, mu = tree(spec)
    nparents = {}
    for k in children.values():
        for x in k:
            nparents[x] = nparents.get(x, 0) + 1
    V = {a: U[:, j] for j, a in enumerate(spec["alts"])}
    z = {}
    with np.errstate(all="ignore"):
        for code in order:
            m = v[mu[code]] if code in mu else 1.0
            zz = np.stack([(V[k] - math.log(nparents[k])) / m for k in children[code]])
            top = zz.max(0)
            top = np.where(np.isfinite(top), top, 0.0)
            V[code] = (np.log(np.exp(zz - top).sum(0)) + top) * m
            z[code] = zz - V[code] / m      # conditional log probabilities
        P = {code: np.zeros(n) for code in order}
        P.update({a: np.zeros(n) for a in spec["alts"]})
        P[0] = np.ones(n)
        logp = {a: np.full(n, -np.inf) for a in P}
        logp[0] = np.zeros(n)
        for code in reversed(order):
            for k, cond in zip(children[code], z[code]):
                cond = np.where(np.isnan(cond), -np.inf, cond)
                logp[k] = np.logaddexp(logp[k], logp[code] + cond)
        for k in P:
            P[k] = np.exp(logp[k])
    ch = np.array(spec["ch"], dtype=float)
    LP = np.stack([logp[a] for a in spec["alts"]], 1)
    with np.errstate(all="ignore"):
        llc = np.where(ch != 0, ch * LP, 0.0).sum(1)
    wt = np.array(spec["wt"], dtype=float) if spec["wt"] is not None else np.ones(n)
    return {
        "U": U, "V": V, "P": np.stack([P[a] for a in spec["alts"]], 1), "Pnode": P, "logP": LP,
        "logsum": V[0], "llc": llc * wt, "ll": float((llc * wt).sum()), "wt": wt, "ch": ch,
        "order": order, "children": children,
    }


def central(f, values, names, h=1e-5):
    """Fourth-order central difference of f (array-valued) by each name; returns [.., names]."""
    cols = []
    for p in names:
        def at(d):
            w = dict(values)
            w[p] = w[p] + d
            return np.asarray(f(w), dtype=float)
        cols.append((8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h))
    return np.stack(cols, -1) if cols else np.zeros(np.asarray(f(values)).shape + (0,))


def nontrivial(spec):
    """At least two available alternatives in some case, and utilities that differ there."""
    U = ref_utility(spec)
    for row in U:
        fin = row[np.isfinite(row)]
        if len(fin) > 1 and np.ptp(fin) > 0:
            return True
    return False


def labels(spec):
    out = []
    if spec["av"] is not None and not np.all(spec["av"]):
        out.append("unavailable alternatives")
    if spec["wt"] is not None:
        out.append("weights")
    out.append("choice " + spec["chkind"])
    if spec["qca"]:
        out.append("size terms" + (" scaled" if spec["theta"] else ""))
    if spec["nests"]:
        codes = {c for c, _, _ in spec["nests"]}
        depth = any(k in codes for _, _, ks in spec["nests"] for k in ks)
        out.append("nested in nests" if depth else "nests")
        kids = [k for _, _, ks in spec["nests"] for k in ks]
        if len(kids) != len(set(kids)):
            out.append("cross-nested")
        mus = [m for _, m, _ in spec["nests"]]
        if len(mus) != len(set(mus)):
            out.append("shared logsum parameter")
    if "shift" in spec["values"]:
        out.append("large common utility")
    if len(spec["caseids"]) == 1:
        out.append("one case")
    return out


# ---------------------------------------------------------------- larch data

def idx_case(spec):
    return pd.Index(spec["caseids"], name="caseid")


def frame_co(spec):
    return pd.DataFrame(spec["co"], index=idx_case(spec), dtype=float)


def frame_ca(spec):
    ix = pd.MultiIndex.from_product([spec["caseids"], spec["alts"]], names=["caseid", "altid"])
    return pd.DataFrame({k: np.array(v, dtype=float).reshape(-1) for k, v in spec["ca"].items()}, index=ix)


def frame_jj(spec, key, dtype):
    a = spec[key]
    if a is None:
        a = np.ones([len(spec["caseids"]), len(spec["alts"])])
    return pd.DataFrame(np.array(a), index=idx_case(spec), columns=spec["alts"]).astype(dtype)


def dataframes(spec, fmt="ca"):
    """A larch.DataFrames holding the data of the specification.

    The "ce" form names an alternative only where it is available, so it is
    used only when every alternative is available somewhere."""
    import larch
    kw = dict(co=frame_co(spec), alt_codes=list(spec["alts"]))
    ca = frame_ca(spec)
    av = frame_jj(spec, "av", np.int8)
    if fmt == "ce" and av.values.any(0).all():
        mask = av.values.reshape(-1).astype(bool)
        kw["ce"] = ca[mask]
        kw["av"] = av
    else:
        kw["ca"] = ca
        kw["av"] = av
    kw["ch"] = frame_jj(spec, "ch", float)
    if spec["wt"] is not None:
        kw["wt"] = pd.DataFrame({"wt": np.array(spec["wt"], dtype=float)}, index=idx_case(spec))
    return larch.DataFrames(**kw)


def define(m, spec):
    """Write the specification into a model."""
    from larch.roles import P, X
    first = True
    for p, name, s in spec["uca"]:
        t = P(p) * X(name) * s if s != 1 else P(p) * X(name)
        m.utility_ca = t if first else m.utility_ca + t
        first = False
    for alt, terms in spec["uco"].items():
        f = None
        for p, name, s in terms:
            t = P(p) if name is None else P(p) * X(name)
            if s != 1:
                t = t * s
            f = t if f is None else f + t
        m.utility_co[alt] = f
    if spec["qca"]:
        f = None
        for p, name in spec["qca"]:
            t = P(p) * X(name)
            f = t if f is None else f + t
        m.quantity_ca = f
        if spec["theta"]:
            m.quantity_scale = P(spec["theta"])
    return m


def add_nests(m, spec):
    if not spec["nests"]:
        return
    g = m.graph
    order, children, mu = tree(spec)
    for code in order[:-1]:
        g.add_node(code, children=children[code], parameter=mu[code], name=f"nest{code}")


def apply_values(m, spec):
    m.set_values(**{k: v for k, v in spec["values"].items()})


def legacy(spec, fmt="ca", how="direct", autoscale=False, threads=None):
    import larch
    d = dataframes(spec, fmt)
    if how == "direct":
        m = larch.Model()
        define(m, spec)
        m.initialize_graph(alternative_codes=list(spec["alts"]))
        add_nests(m, spec)
        m.dataframes = d
    else:
        m = larch.Model(dataservice=d)
        define(m, spec)
        add_nests(m, spec)
        m.load_data(autoscale_weights=autoscale)
    if threads:
        m.n_threads = threads
    apply_values(m, spec)
    return m


def dataset(spec, av=True, ch=True):
    """A larch.numba Dataset holding the data of the specification."""
    from larch.numba import Dataset
    from xarray import DataArray
    n, J = len(spec["caseids"]), len(spec["alts"])
    coords = {"_caseid_": np.array(spec["caseids"]), "_altid_": np.array(spec["alts"])}
    ds = {}
    for k, v in spec["co"].items():
        ds[k] = DataArray(np.array(v, dtype=float), dims=["_caseid_"])
    for k, v in spec["ca"].items():
        ds[k] = DataArray(np.array(v, dtype=float).reshape(n, J), dims=["_caseid_", "_altid_"])
    if ch:
        ds["chose_"] = DataArray(np.array(spec["ch"], dtype=float), dims=["_caseid_", "_altid_"])
    if av:
        ds["avail_"] = DataArray(frame_jj(spec, "av", np.int8).values, dims=["_caseid_", "_altid_"])
    if spec["wt"] is not None:
        ds["wt_"] = DataArray(np.array(spec["wt"], dtype=float), dims=["_caseid_"])
    ds = Dataset(ds, coords=coords)
    ds.dc.CASEID = "_caseid_"
    ds.dc.ALTID = "_altid_"
    return ds


def numba(spec, via="ds", fmt="ca"):
    from larch.numba import Model
    if via == "df":
        m = Model()
        define(m, spec)
        m.initialize_graph(alternative_codes=list(spec["alts"]))
        add_nests(m, spec)
        m.dataframes = dataframes(spec, fmt)
    else:
        ds = dataset(spec)
        m = Model(datatree=ds)
        define(m, spec)
        m.choice_ca_var = "chose_"
        m.availability_var = "avail_"
        if spec["wt"] is not None:
            m.weight_co_var = "wt_"
        add_nests(m, spec)
    m.unmangle()
    apply_values(m, spec)
    return m


def in_order(m, spec):
    """Position of each alternative of the specification in the model's own order."""
    std = list(m.graph.standard_sort)
    return [std.index(a) for a in spec["alts"]]


def case_order(spec):
    """DataFrames keep their cases in increasing order of case id."""
    return np.argsort(spec["caseids"], kind="stable")
