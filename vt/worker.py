"""Runs one shard of a property's tests; see run.py."""
import faulthandler, hashlib, json, os, pickle, sys, time, traceback, base64

cfg = json.load(open(sys.argv[1]))
sys.path.insert(0, cfg["root"])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append(cfg["hyp"])
faulthandler.enable()
scratch = cfg["scratch"]
os.makedirs(scratch, exist_ok=True)
os.chdir(scratch)

import logging
logging.disable(logging.WARNING)
import warnings
warnings.simplefilter("ignore")

import larch
assert os.path.abspath(larch.__file__).startswith(cfg["root"] + "/"), larch.__file__
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase
from hypothesis.errors import Flaky, Unsatisfiable
from vt import core
import importlib
importlib.import_module("vt.props." + cfg["module"])

prop, tier, seed, shard, nshards = cfg["prop"], cfg["tier"], cfg["seed"], cfg["shard"], cfg["nshards"]
deadline = cfg["deadline"]
out = {"tests": {}, "violations": [], "errors": [], "inconclusive": []}
hashes = set()
current_path = os.path.join(scratch, "current.pkl")


def describe(e):
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return "".join(tb[-6:])


class StopCase(KeyboardInterrupt):     # hypothesis does not take it for a failure to shrink
    pass


def write():
    tmp = cfg["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump({**out, "hashes": sorted(hashes)}, f, default=str)
    os.replace(tmp, cfg["out"])


def run_test(t):
    n_total = t.quick if tier == "quick" else t.thorough
    if cfg.get("scale"):
        n_total = max(1, int(n_total * cfg["scale"]))
    sh = min(t.shards, nshards, n_total)
    # rotate, so that tests with few shards do not all land on the same worker
    off = int(hashlib.sha256(t.name.encode()).hexdigest(), 16) % nshards
    k = (shard - off) % nshards
    if k >= sh:
        return
    n = n_total // sh + (1 if k < n_total % sh else 0)
    st = {"cases": 0, "nontrivial": 0, "labels": {}, "samples": [], "excluded": {}, "seconds": 0.0}
    out["tests"][t.name] = st
    fail = {"spec": None, "msg": None, "since": None, "key": None, "late": False}
    t0 = time.time()

    def one(spec):
        now = time.time()
        blob = pickle.dumps(spec)
        if now > deadline and blob != fail["key"]:
            fail["late"] = True
            if fail["key"] is not None:
                return
            raise StopCase()
        if fail["since"] is not None:
            # limit the time spent on shrinking
            if now - fail["since"] > cfg["shrink_s"] and blob != fail["key"]:
                return
        with open(current_path, "wb") as f:
            f.write(pickle.dumps({"prop": prop, "test": t.name, "spec": spec}))
        ctx = core.Ctx(scratch)
        try:
            t.fn(spec, ctx)
        except (KeyboardInterrupt, MemoryError, StopCase):
            raise
        except BaseException as e:
            if isinstance(e, hypothesis.errors.HypothesisException) or type(e).__module__.startswith("hypothesis"):
                raise
            if fail["since"] is None:
                fail["since"] = time.time()
            fail.update(spec=spec, msg=describe(e), key=blob)
            raise
        finally:
            if fail["since"] is None:
                st["cases"] += 1
                for l in set(ctx.labels):
                    st["labels"][l] = st["labels"].get(l, 0) + 1
                for l in ctx.excluded:
                    st["excluded"][l] = st["excluded"].get(l, 0) + 1
                if ctx.nontrivial_flag:
                    st["nontrivial"] += 1
                    h = hashlib.sha256((t.name + repr(spec)).encode()).hexdigest()[:16]
                    hashes.add(h)
                    if len(st["samples"]) < 2 or (st["nontrivial"] % 50 == 0 and len(st["samples"]) < 4):
                        r = repr(spec)
                        st["samples"].append(r if len(r) < 1500 else r[:1500] + "...")

    tseed = int(hashlib.sha256(f"{seed}/{prop}/{t.name}/{k}".encode()).hexdigest(), 16) % (2 ** 62)
    wrapped = given(t.strategy)(one)
    wrapped = hypothesis.seed(tseed)(wrapped)
    wrapped = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                       report_multiple_bugs=False, derandomize=False,
                       phases=[Phase.generate, Phase.shrink],
                       suppress_health_check=list(HealthCheck))(wrapped)
    try:
        wrapped()
    except StopCase:
        out["inconclusive"].append(f"{t.name}: time budget reached after {st['cases']} cases")
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if fail["key"] is None and fail["late"]:
            # whatever hypothesis makes of StopCase (a group of them, a flaky failure, ...)
            out["inconclusive"].append(f"{t.name}: time budget reached after {st['cases']} cases")
        elif fail["key"] is None:
            out["errors"].append(f"{t.name}: " + describe(e))
        else:
            note = "" if not isinstance(e, Flaky) else "\n(the failure did not repeat on immediate re-execution)"
            out["violations"].append({"prop": prop, "test": t.name, "message": fail["msg"] + note,
                                      "spec": repr(fail["spec"]),
                                      "pickle": base64.b64encode(fail["key"]).decode()})
    st["seconds"] = round(time.time() - t0, 2)
    write()


try:
    for t in core.TESTS[prop]:
        if cfg.get("only") and t.name not in cfg["only"]:
            continue
        run_test(t)
        if out["violations"]:
            break
    out["done"] = True
except BaseException as e:
    out["errors"].append("worker: " + describe(e))
write()
sys.stdout.flush()
os._exit(0)
