"""Replay a recorded failing input on the real code (repository's venv)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
from vengine.runner import load_specs
from vengine.harness import REGISTRY, run_concrete
d = json.load(sys.stdin if sys.argv[1] == "-" else open(sys.argv[1]))
load_specs()
if d.get("inputs") is None:
    print("no failing input recorded; failed obligation:", d.get("label"))
    sys.exit(2)
h = next(x for x in REGISTRY[d["property"]] if x.name == d["harness"])
st, v = run_concrete(h, inputs=d["inputs"])
print("inputs:", json.dumps(v.inputs, default=str)[:4000])
print("status:", st, "failed:", v.failures)
sys.exit(1 if st == "fail" else 0)
