"""Data preparation: expanding, compressing, relabelling and describing columns."""
import copy
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vt.core import check, require, equal, close, raises
from vt import gen

LABELS = ["AM", "PM", "NIGHT", "midday", "x"]
WORDS = ["car", "bus", "a b", "walk", "é"]

values = st.tuples(st.sampled_from(["float", "int", "small"]), st.integers(1, 8)).flatmap(
    lambda k: st.tuples(st.just(k[0]), gen.grid(k[1]) if k[0] == "float" else gen.ints(k[1], -6 if k[0] == "int" else 0, 12 if k[0] == "int" else 3)))

container = st.fixed_dictionaries({
    "as": st.sampled_from(["series", "one column", "two columns", "two columns"]),
    "index": st.sampled_from(["range", "shuffled", "text", "idca"]),
    "name": st.sampled_from(["x", "tottime", "A_1"]), "inplace": st.booleans(), "drop": st.booleans()})


def index_of(kind, n):
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "shuffled":
        return pd.Index([(7 * i + 3) % 23 for i in range(n)])
    if kind == "text":
        return pd.Index([f"r{(5 * i + 1) % 13}" for i in range(n)])
    return pd.MultiIndex.from_tuples([(100 - i // 2, 1 + (i + 1) % 2) for i in range(n)], names=["caseid", "altid"])


def contain(spec, col):
    """(argument, keywords, the frame that can be changed in place, the column)"""
    c = spec["container"]
    s = pd.Series(col, index=index_of(c["index"], len(col)), name=c["name"])
    if c["as"] == "series":
        return s, {}, None, s
    if c["as"] == "one column":
        f = s.to_frame()
        return f, ({"column": c["name"]} if c["drop"] else {}), f, s
    f = pd.DataFrame({"other": np.arange(len(col)) * 1.5, c["name"]: s}, index=s.index)
    return f, {"column": c["name"]}, f, s


def frame_is(got, index, columns, what):
    """got has exactly these columns, in order, on this index."""
    require(isinstance(got, pd.DataFrame), what, ": not a DataFrame but", type(got))
    equal(list(got.columns), list(columns), what + " columns")
    require(got.index.equals(index), what, "is on another index", got.index, index)
    for k, v in columns.items():
        close(got[k].values, v, rtol=1e-9, atol=1e-12, what=f"{what} [{k}]")


def expand(ctx, spec, fun, col, want, what, drop=False, **kw):
    """Run an expansion in the way that spec says and check what it gives and leaves alone."""
    c = spec["container"]
    arg, more, frame, s = contain(spec, col)
    before = arg.copy()
    if c["inplace"] and frame is not None:
        if drop:
            kw = dict(kw, drop=c["drop"])
        out = fun(arg, inplace=True, **more, **kw)
        require(out is None, what, "in place returns", out)
        keep = list(before.columns)
        if drop and c["drop"]:
            keep.remove(c["name"])
            ctx.label("dropped")
        equal(list(arg.columns), keep + list(want), what + " in place: columns")
        frame_is(arg[list(want)], before.index, want, what + " in place")
        for k in keep:
            require(arg[k].equals(before[k]), what, "in place changed column", k)
        ctx.label("in place")
        return arg[list(want)]
    out = fun(arg, **more, **kw)
    frame_is(out, before.index, want, what)
    require(arg.equals(before), what, "changed what it was given")
    return out


expand_spec = st.fixed_dictionaries({
    "kind": st.sampled_from(["one-hot", "one-hot", "piecewise", "piecewise", "fourier"]), "values": values,
    "container": container, "words": st.booleans(), "nan": st.sampled_from([False, False, True]), "which": st.booleans(),
    "breaks": st.lists(st.sampled_from([-2, -0.5, 0, 1, 1.5, 3, 7, -1, 0.25, 10, 2]), min_size=1, max_size=5, unique=True).map(sorted),
    "far": st.booleans(), "length": st.integers(1, 6), "as function": st.booleans(), "compress": st.sampled_from(["", "name", "drop", "inplace"])})


def pieces(x, breaks):
    """The parts of x between the breaks, each computed by hand."""
    out = []
    edges = [None] + list(breaks) + [None]
    for lo, hi in zip(edges, edges[1:]):
        v = x
        if hi is not None and v > hi:
            v = hi
        if lo is not None:
            v = v - lo if v > lo else 0
        out.append(v)
    return out


@check("P18", expand_spec, quick=2400)
def expansion(spec, ctx):
    """Expanded columns hold, row by row, what their names say, and nothing else changes; compression inverts one-hot."""
    import larch
    from larch.util import data_expansion as de, common_functions as cf
    kind, (dtype, vals) = spec["kind"], spec["values"]
    name = spec["container"]["name"]
    col = np.array(vals, dtype=float if dtype == "float" else int)
    ctx.label(kind, spec["container"]["as"], dtype)
    ctx.nontrivial(len(set(vals)) > 1)
    if kind == "one-hot":
        if spec["words"]:
            vals = [WORDS[int(abs(v * 4)) % 5] for v in vals]
            col = np.array(vals, dtype=object)
        want = {f"{name}=={v}": [float(x == v) for x in col] for v in np.unique(col)}
        from larch.dataframes import categorical_expansion as other
        fun = [de.categorical_expansion, de.one_hot_expansion, other][(len(vals) + spec["which"]) % 3]
        out = expand(ctx, spec, fun, col, want, "one-hot expansion", drop=True)
        wide = out.copy()
        wide["another"] = 0.5
        how = spec["compress"]
        cols = list(want)
        if spec["nan"]:
            wide.iloc[0, :len(cols)] = 0
        truth = [f"{name}=={v}" for v in col]
        if spec["nan"]:
            truth[0] = None
        before = wide.copy()
        if how in ("drop", "inplace"):
            r = de.categorical_compression(wide, cols, inplace=True, drop=how == "drop", name="mode")
            require(r is None, "compression in place returns", r)
            equal(list(wide.columns), (["another"] if how == "drop" else cols + ["another"]) + ["mode"], "columns after compression")
            back = wide["mode"]
        else:
            back = de.categorical_compression(wide, cols) if how else de.categorical_compression(wide[cols])
            require(wide.equals(before), "compression changed what it was given")
        require(back.index.equals(before.index), "compression gives another index")
        equal([None if pd.isnull(v) else v for v in back], truth, "compressed categories")
        require(list(back.cat.categories) == cols, "categories", list(back.cat.categories), "expected", cols)
        return
    if spec["nan"] and dtype == "float":
        col = col.copy()
        col[-1] = np.nan
        ctx.label("nan")
    if kind == "fourier":
        n = spec["length"]
        want = {}
        for i in range(n):
            m = 2 * (i // 2 + 1)
            f = "cos" if i % 2 else "sin"
            want[f"{f}({name}*{m}*pi)"] = getattr(np, f)(col * m * np.pi)
        mod = de if spec["which"] else cf
        equal(list(mod.fourier_expansion_names(name, length=n)), list(want), "fourier names")
        out = expand(ctx, spec, mod.fourier_expansion, col, want, "fourier expansion", length=n)
        fun = cf.fourier_series(name, "b", length=n)
        equal([str(t.data) for t in fun], list(want), "data of a fourier series")
        require(len({str(t.param) for t in fun}) == n, "parameters of a fourier series are not distinct")
    else:
        breaks = list(spec["breaks"])
        if spec["far"]:
            breaks = breaks + [20 + i for i in range(9)]
        edges = [None] + breaks + [None]
        names = [f"piece({name},{a},{b})" for a, b in zip(edges, edges[1:])]
        parts = [pieces(float(x), breaks) if x == x else [np.nan] * len(names) for x in col]
        want = {k: [p[i] for p in parts] for i, k in enumerate(names)}
        from larch.roles import X, P
        fun = de.piecewise_linear(X(name), P("b"), breaks) if spec["which"] else de.piecewise_linear(P("b"), X(name), breaks=breaks)
        equal([str(t.data) for t in fun], names, "data of a piecewise function")
        ps = [str(t.param) for t in fun]
        require(len(set(ps)) == len(names) and all(p.startswith("b[") for p in ps), "parameters of a piecewise function", ps)
        equal(de.infer_breaks(fun), breaks, "breaks of a piecewise function")
        out = expand(ctx, spec, de.piecewise_expansion, col, want, "piecewise expansion", breaks=fun if spec["as function"] else breaks)
        close(out.sum(axis=1, skipna=False).values, col, what="sum of the pieces")
    # what the names mean, as a model computes them
    f = pd.DataFrame({name: col})
    for k in want:
        close(np.asarray(f.compute(k)), want[k], rtol=1e-9, atol=1e-12, what=f"computed {k}")


clip_spec = st.fixed_dictionaries({
    "x": gen.grid(5), "low": st.sampled_from([None, 0, -1, 0.5, 1, 2, -0.25]), "high": st.sampled_from([None, 0, -1, 0.5, 1, 2, 1e-5, 3e20]),
    "arrays": st.booleans(), "base": st.sampled_from(["x", "log(x)", "piece(x,1,2)", "fmax(x,y)", "x*2"]),
    "around": st.sampled_from(["", "", "y*", "(z+1)*"]), "div": st.sampled_from([1, 2, 0.5]), "powers": st.booleans()})


@check("P18", clip_spec, quick=1200)
def functions(spec, ctx):
    """piece, hard_sigmoid, normalize and polynomial do as documented for all bounds; parse_piece reads what is written."""
    from larch.util import common_functions as cf
    x, lo, hi = np.array(spec["x"]), spec["low"], spec["high"]
    ctx.nontrivial(lo is not None or hi is not None)
    keep = x.copy()

    def one(v):
        if hi is not None:
            v = min(v, hi)
        if lo is not None:
            v = max(v, lo) - lo
        return v
    if lo is None or hi is None or lo <= hi:
        close(cf.piece(x, lo, hi), [one(v) for v in x], what=f"piece({lo},{hi})")
        ctx.label("piece")
    if lo is not None and hi is not None:
        def sig(v):
            if lo == hi:
                return float(v > lo)
            return min(max((v - lo) / (hi - lo), 0.0), 1.0)
        close(cf.hard_sigmoid(list(x) if spec["arrays"] else x, lo, hi), [sig(v) for v in x], what=f"hard_sigmoid({lo},{hi})")
        ctx.label("sigmoid")
    if np.std(x) > 0:
        z = cf.normalize(x, spec["div"])
        close([np.mean(z), np.std(z)], [0, 1 / spec["div"]], what="mean and spread after normalize")
        close(z * np.std(x) * spec["div"] + np.mean(x), x, what="normalize undone")
    equal(x, keep, "the array that was given")
    base = spec["base"]
    around = "" if "piece" in base else spec["around"]
    if lo is not None or hi is not None:
        text = f"{around}piece({base},{lo},{hi})"
        equal(tuple(cf.parse_piece(text)), (base, lo, hi, not around), f"parse_piece({text!r})")
    equal(tuple(cf.parse_piece(base.replace("piece", "price"))), (None,) * 4, "parse_piece of no piece")
    powers = {1: "", 3: "_c", 0.5: "_r"} if spec["powers"] else None
    fun = cf.polynomial("d", "b", powers, {"log": "_L"} if spec["arrays"] else None)
    pw = powers or {1: "", 2: "_Squared", 3: "_Cubed"}
    want = [("d" if p == 1 else f"(d)**{p}", "b" + s) for p, s in pw.items()] + ([("log(d)", "b_L")] if spec["arrays"] else [])
    equal([(str(t.data), str(t.param)) for t in fun], want, "polynomial")


period_spec = st.fixed_dictionaries({
    "values": values, "series": st.booleans(), "default": st.sampled_from([None, "OP", 0, "a longer default"]),
    "numbers": st.booleans(), "left": st.booleans(), "right": st.booleans(), "as": st.sampled_from(["kwargs", "list", "tuple", "dict", "both"]),
    "parts": st.lists(st.tuples(st.integers(0, 4), st.sampled_from([None, -2, 0, 1, 1.5, 3, 6]), st.sampled_from([None, -1, 0, 2, 3, 8])), min_size=1, max_size=4)})


@check("P18", period_spec, quick=1200)
def periodize(spec, ctx):
    """Each value gets the label of the last part that holds it, or the default; bounds are in or out as asked."""
    from larch.util.data_manipulation import periodize as fun
    dtype, vals = spec["values"]
    v = np.array(vals, dtype=float if dtype == "float" else int)
    names = [1, 2.5, 3, -1, 7] if spec["numbers"] and spec["as"] in ("list", "tuple", "dict") else LABELS
    parts = [(names[k], (a, b)) for k, a, b in spec["parts"]]
    how = spec["as"]
    if how in ("kwargs", "dict", "both"):
        seen = {}
        for k, b in parts:
            seen[k] = b
        parts = list(seen.items())
    default = spec["default"]
    if spec["numbers"] and isinstance(default, str) or not spec["numbers"] and default == 0:
        default = None
    kw = {}
    if how == "kwargs":
        arg, kw = None, dict(parts)
    elif how == "both":
        arg, kw = parts[:1], dict(parts[1:])
    else:
        arg = {"list": list, "tuple": tuple, "dict": dict}[how](parts)
    keep = copy.deepcopy(arg)
    given = pd.Series(v, index=index_of("shuffled", len(v))) if spec["series"] else v
    before = given.copy()
    out = fun(given, arg, default=default, left=spec["left"], right=spec["right"], **kw)

    def label(x):
        r = default
        for k, (a, b) in parts:
            if (a is None or x > a or (spec["left"] and x == a)) and (b is None or x < b or (spec["right"] and x == b)):
                r = k
        return r
    want = [label(x) for x in v]
    equal([None if pd.isnull(o) else o for o in out], want, "labels")
    equal(arg, keep, "the mapping that was given")
    require(given.equals(before) if spec["series"] else np.array_equal(given, before), "the values that were given changed")
    if spec["series"]:
        require(out.index.equals(given.index), "another index")
        require(str(out.dtype) == "category", "not categorical but", out.dtype)
    ctx.label(how)
    ctx.nontrivial(len(set(map(str, want))) > 1)


ratio_spec = st.fixed_dictionaries({
    "rows": st.lists(st.tuples(st.integers(1, 4), st.integers(1, 5)), min_size=1, max_size=10, unique=True), "values": gen.ints(10, 0, 9),
    "half": st.booleans(), "as": st.sampled_from(["series", "one column", "two columns"]), "inplace": st.booleans(), "name": st.booleans(),
    "drop": st.integers(0, 4)})


@check("P18", ratio_spec, quick=1000)
def within_cases(spec, ctx):
    """ratio_min divides by the least of the same case; index levels can be pruned and reordered without moving a row."""
    from larch.util.data_expansion import ratio_min
    from larch.util.multiindex import remove_unused_level, replace_levels
    rows = spec["rows"]
    vals = [v / 2 if spec["half"] else v for v in spec["values"][:len(rows)]]
    ix = pd.MultiIndex.from_tuples([(10 * c, a) for c, a in rows], names=["c", "a"])
    s = pd.Series(vals, index=ix, name="cost")
    least = {}
    for (c, _), v in zip(rows, vals):
        least[c] = min(v, least.get(c, v))
    want = [v / (least[c] or 1) for (c, _), v in zip(rows, vals)]
    arg, kw = s, {}
    if spec["as"] != "series":
        arg, kw = s.to_frame(), {"column": "cost"}
        if spec["as"] == "two columns":
            arg["other"] = 7
    before = arg.copy()
    if spec["inplace"] and spec["as"] != "series":
        name = "r" if spec["name"] else "ratio_min(cost)"
        require(ratio_min(arg, inplace=True, result_name="r" if spec["name"] else None, **kw) is None, "in place returns something")
        equal(list(arg.columns), list(before.columns) + [name], "columns")
        close(arg[name].values, want, what="ratio_min in place")
        require(arg[before.columns].equals(before), "ratio_min changed other columns")
    else:
        out = ratio_min(arg, **kw)
        close(out.values, want, what="ratio_min")
        require(out.index.equals(ix), "ratio_min gives another index")
        require(arg.equals(before), "ratio_min changed what it was given")
    require(raises(lambda: ratio_min(s.reset_index(drop=True)), ValueError), "a plain index is accepted")
    # prune levels
    keep = [i for i, (c, a) in enumerate(rows) if c != spec["drop"]]
    part = ix[keep]
    for lev in (0, 1, (0, 1)):
        got = remove_unused_level(part, lev)
        require(got.equals(part), "index changed", got, part)
        equal(list(got), list(part), "tuples of the index")
        for n in ((lev,) if isinstance(lev, int) else lev):
            equal(sorted(got.levels[n]), sorted({t[n] for t in part}), "values left in the level")
            if len(part):
                require(got.codes[n].dtype.kind == "i", "codes are", got.codes[n].dtype)
        t = pd.Series(range(len(part)), index=got)
        for i, k in enumerate(part):
            equal(int(t.loc[k]), i, f"row {k} after pruning")
    new = sorted(set(ix.levels[1]), reverse=True) + [99]
    got = replace_levels(ix, 1, new)
    equal(list(got), list(ix), "tuples after replace_levels")
    equal(list(got.levels[1]), new, "the new level")
    equal(list(got.names), ["c", "a"], "names after replace_levels")
    require(raises(lambda: replace_levels(ix, 1, new[1:]), ValueError), "a level that lacks labels is accepted")
    ctx.nontrivial(len(set(want)) > 1)
    ctx.label(spec["as"])


label_spec = st.fixed_dictionaries({
    "labels": st.lists(st.sampled_from([1, 2, 3, 5, 8, 40, -4, 100, 7]), min_size=1, max_size=6, unique=True), "sort": st.booleans(), "dup": st.integers(0, 5),
    "look": gen.ints(6, -6, 120), "known": st.booleans(), "shape": st.sampled_from([(6,), (2, 3), (3, 2)]), "float": st.booleans(), "start": st.integers(0, 5),
    "numbers": gen.grid(4), "n": st.sampled_from([1, 4, 99, 100, 101, 250]), "text": st.booleans(), "nan": st.booleans()})


@check("P18", label_spec, quick=1200)
def lookups(spec, ctx):
    """Labels become positions and codes that lead back to them; integer tests look at every element."""
    from larch.util import arraytools as at
    labels = sorted(spec["labels"]) if spec["sort"] else list(spec["labels"])
    arr = np.array(spec["look"]).reshape(spec["shape"])
    if spec["known"]:
        arr = np.array([labels[abs(v) % len(labels)] for v in spec["look"]]).reshape(spec["shape"])
        ctx.label("known")
    if spec["float"]:
        arr = arr + 0.0
    got = np.asarray(at.label_to_index(np.array(labels) if spec["text"] else labels, arr))
    equal(got.shape, arr.shape, "shape of the positions")

    def pos(v):
        up = [x for x in labels if x >= v]
        return labels.index(min(up) if up else max(labels))
    equal(got, np.array([pos(v) for v in arr.ravel()]).reshape(arr.shape), "positions")
    if spec["dup"] == 0:
        require(raises(lambda: at.label_to_index(labels + labels[:1], arr), at.NonUniqueLookup), "labels that are not unique are accepted")
    words = [f"w{v % 7}" for v in spec["look"]] if spec["text"] else list(spec["look"])
    u, ids = at.labels_to_unique_ids(words, spec["start"])
    equal(list(u), sorted(set(words)), "unique labels")
    equal([list(u)[i - spec["start"]] for i in ids], words, "labels behind the codes")
    l = np.array(labels)
    equal(bool(at.is_sorted_and_unique(l)), labels == sorted(labels), "is_sorted_and_unique")
    equal(bool(at.is_sorted(np.array(spec["look"]))), spec["look"] == sorted(spec["look"]), "is_sorted")
    # integers
    a = np.arange(spec["n"]) * 1.0
    k = spec["dup"] % 4
    a[-1] += spec["numbers"][k]
    if spec["dup"] > 2:
        a[0] = spec["numbers"][0]
    whole = all(float(v).is_integer() for v in a)
    equal(bool(at.is_all_integer(a)), whole, "is_all_integer")
    back = at.convert_float_to_int_if_lossless(a)
    equal(np.asarray(back), a, "values after convert_float_to_int_if_lossless")
    equal(back.dtype.kind, "i" if whole else "f", "kind after convert_float_to_int_if_lossless")
    equal(bool(at.is_all_integer_or_nan(a)), whole, "is_all_integer_or_nan")
    if spec["nan"]:
        b = np.append(a, np.nan)
        equal(bool(at.is_all_integer(b)), False, "is_all_integer with a nan")
        equal(bool(at.is_all_integer_or_nan(b)), whole, "is_all_integer_or_nan with a nan")
    ctx.label("unsorted" if labels != sorted(labels) else "sorted")
    ctx.nontrivial(len(labels) > 1)


stat_spec = st.fixed_dictionaries({
    "values": gen.grid(7), "n": st.integers(2, 7), "bad": st.lists(st.tuples(st.integers(0, 6), st.sampled_from(["nan", "inf"])), max_size=2),
    "chosen": st.one_of(st.none(), gen.ints(7, 0, 2)), "avail": st.sampled_from(["", "", "bool", "int8", "int64"]), "av": gen.ints(7, 0, 2),
    "int": st.booleans(), "how": st.sampled_from(["array", "series", "frame", "flatten"]), "uniq": st.booleans()})


@check("P18", stat_spec, quick=1000)
def statistics(spec, ctx):
    """Statistics of a column are those of its finite (or available) values; counting keeps every value."""
    from larch.util.statistics import statistics_for_array, statistics_for_dataframe, uniques, invmap
    n = spec["n"]
    v = np.array(spec["values"][:n])
    if spec["int"]:
        v = (v * 4).astype(int)
    else:
        for i, what in spec["bad"]:
            v[i % n] = float(what)
    ok = np.isfinite(v)
    kw = {}
    if spec["avail"]:
        av = np.array([min(x, 1) for x in spec["av"][:n]])
        kw["avail"] = av.astype(spec["avail"])
        ok = av > 0
        ctx.label("avail " + spec["avail"])
    if not ok.any() or not np.isfinite(v[ok]).all():
        return
    if spec["chosen"] is not None:
        w = np.array(spec["chosen"][:n]) * 1.0
        if not (w > 0).any() or not np.isfinite(v[w > 0]).all():
            return
        kw["ch_weights"] = w
    keep = v.copy()
    how = spec["how"]
    if how == "flatten" and n % 2 == 0:
        s = statistics_for_array(v.reshape(2, -1), histogram=False, flatten=True, **{k: (x if k == "avail" else x.reshape(2, -1)) for k, x in kw.items()})
    elif how == "frame":
        f = pd.DataFrame({"b": np.arange(n) * 1.0, "a": v})
        s = statistics_for_dataframe(f, histogram=False, **kw).loc["a"]
        if "nans" not in s:
            pass
    elif how == "series":
        s = statistics_for_array(pd.Series(v), histogram=False, **kw)
    else:
        s = statistics_for_array(v, histogram=False, **kw)
    equal(v, keep, "the column that was given")
    x = v[ok]
    want = {"n": len(x), "minimum": x.min(), "maximum": x.max(), "median": np.median(x), "mean": x.mean(), "stdev": x.std(),
            "zeros": (x == 0).sum(), "positives": (x > 0).sum(), "negatives": (x < 0).sum()}
    if np.isnan(v).any():
        want["nans"] = np.isnan(v).sum()
    if np.isinf(v).any():
        want["infs"] = np.isinf(v).sum()
    z = x[x != 0]
    if len(z):
        want.update(nonzero_minimum=z.min(), nonzero_maximum=z.max(), nonzero_mean=z.mean(), nonzero_stdev=z.std())
    if "ch_weights" in kw:
        c = v[kw["ch_weights"] > 0]
        want.update(n_chosen=len(c), minimum_chosen=c.min(), maximum_chosen=c.max(), median_chosen=np.median(c))
    for k, q in want.items():
        close(s[k], q, what=k)
    ctx.label(how)
    ctx.nontrivial(len(set(x)) > 1)
    col = pd.Series(v if not spec["uniq"] else [WORDS[int(abs(q * 4)) % 5] if np.isfinite(q) else "inf" for q in v])
    names = {q: f"n{q}" for q in list(col)[:2]} if spec["int"] else None
    u = uniques(col, names)
    equal(int(u.sum()), n, "values counted by uniques")
    for q in set(col):
        key = (names or {}).get(q, q)
        if q == q:
            equal(int(u[key]), int((col == q).sum()), f"count of {q!r}")
        else:
            equal(int(u[u.index.isna()].iloc[0]), int(col.isna().sum()), "count of nan")
    m = {"one": 1, "two": 2, "none": 0, "minus": -1}
    t = invmap(pd.Series([1, 0, 2, -1, 1]), m)
    equal(list(t), ["one", "none", "two", "minus", "one"], "invmap")


leaf = st.sampled_from([1, 0, -3, 2.5, True, None, "text", "a: b", "1", "yes", "é", "", "two\nlines", [1, 2], [], [{"k": 1}]])
tree = st.dictionaries(st.sampled_from(["a", "b", "c", "some key", "1", "on"]), st.one_of(leaf, st.dictionaries(st.sampled_from(["a", "z", "q"]), st.one_of(leaf, st.dictionaries(st.sampled_from(["a", "q"]), leaf, max_size=2)), max_size=3)), max_size=4)


@check("P18", st.fixed_dictionaries({"a": tree, "b": tree, "how": st.sampled_from(["text", "file", "folder", "relative"])}), quick=500)
def yaml_files(spec, ctx):
    """A Dict that is dumped and loaded is the same; loading several files merges them, later ones first."""
    from larch.util import Dict
    a, b, how = spec["a"], spec["b"], spec["how"]
    d = Dict(copy.deepcopy(a))
    text = d.dump()
    ctx.label(how)
    ctx.nontrivial(any(isinstance(v, dict) for v in a.values()))
    if how == "text":
        equal(Dict.load(text).to_dict() if "\n" in text else a, a, "a Dict dumped to text")
        return
    here = os.getcwd()
    os.chdir(ctx.scratch)
    try:
        one, two = {"file": (os.path.join(ctx.scratch, "one.yaml"), os.path.join(ctx.scratch, "two.yaml")),
                    "folder": (os.path.join(ctx.scratch, "sub", "one.yaml"), os.path.join(ctx.scratch, "sub", "two.yaml")),
                    "relative": ("one.yaml", "two.yaml")}[how]
        for f in (one, two):
            if os.path.exists(f):
                os.unlink(f)
        d.dump(one)
        Dict(copy.deepcopy(b)).dump(two)
        require(raises(lambda: d.dump(one), FileExistsError), "an existing file is overwritten")
        equal(Dict.load(one).to_dict(), a, "a Dict dumped to a file")
        got = Dict.load_multi(one, two).to_dict()

        def merge(p, q):
            out = dict(p)
            for k, v in q.items():
                out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
            return out
        equal(got, merge(a, b), "two files loaded")
        require(raises(lambda: Dict.load("nowhere.yaml"), FileNotFoundError), "a missing file is loaded")
    finally:
        os.chdir(here)
