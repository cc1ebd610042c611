"""Re-checks each listed known finding on the tree under test (see known_findings.json).

Each entry's probe is a function in vt/props/<module>.py named probe_<id>; it returns
a short description when the listed input still fails, and None when it does not.
"""
import json, os, sys, importlib, traceback
cfg = json.load(open(sys.argv[1]))
sys.path.insert(0, cfg["root"])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append(cfg["hyp"])
os.makedirs(cfg["scratch"], exist_ok=True)
os.chdir(cfg["scratch"])
import logging; logging.disable(logging.WARNING)
import warnings; warnings.simplefilter("ignore")
m = importlib.import_module("vt.props." + cfg["module"])
res = []
for e in cfg["known"]:
    try:
        r = getattr(m, e["probe"])()
    except BaseException as ex:
        r = f"{type(ex).__name__}: {ex}"
    res.append({"id": e["id"], "what": e["what"], "still": r is not None, "now": r})
json.dump(res, open(cfg["out"], "w"))
os._exit(0)
