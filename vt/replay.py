"""Re-run one saved case: /opt/venv/bin/python -m vt.replay <replay.json> (through run.py --replay)."""
import base64, json, os, pickle, sys
cfg = json.load(open(sys.argv[1]))
sys.path.insert(0, cfg["root"])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append(cfg["hyp"])
os.makedirs(cfg["scratch"], exist_ok=True)
os.chdir(cfg["scratch"])
import logging; logging.disable(logging.WARNING)
import warnings; warnings.simplefilter("ignore")
from vt import core
import importlib, traceback
importlib.import_module("vt.props." + cfg["module"])
rep = json.load(open(cfg["replay"]))
spec = pickle.loads(base64.b64decode(rep["pickle"]))
t = [t for t in core.TESTS[rep["prop"]] if t.name == rep["test"]][0]
try:
    t.fn(spec, core.Ctx(cfg["scratch"]))
except BaseException:
    traceback.print_exc()
    sys.exit(1)
print("the case passes")
sys.exit(0)
