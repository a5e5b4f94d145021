"""Confirm a planted bug: tools/seed.py ID PROPERTY 'needs' 'what' FILE <<< edits
Reads seeded/<ID>/edit.py-style replacements from a JSON file: [[file, old, new], ...] and demo.py; writes patch.diff,
demo.sh, meta.json after confirming tests pass and the demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
ID, spec = sys.argv[1], json.load(open(sys.argv[2]))
W = "/tmp/seedwork"
d = f"/verif/seeded/{ID}"
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", W])
for f, old, new in spec["edits"]:
    p = f"{W}/src/ecoengine/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nimport warnings\nwarnings.simplefilter('ignore')\n" + spec["demo"])
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(d + "/meta.json", "w"), indent=1)
a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", d + "/demo.sh"], cwd=W, capture_output=True, text=True)
print("demo clean rc", a.returncode, (a.stdout + a.stderr)[-600:]); print("demo bug rc", b.returncode, (b.stdout + b.stderr)[-300:])
# tests on the scratch copy
t = subprocess.run(["bash", "-c", f"cd {W} && PYTHONPATH={W}/src /opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider src/ecoengine/tests 2>&1 | tail -4"], capture_output=True, text=True)
print(t.stdout)
if "--check" in sys.argv or True:
    e = dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE="/tmp/seedwork-evidence")
    c = subprocess.run(["python3-vt", "/verif/check.py", spec["property"]], cwd="/verif", env=e, capture_output=True, text=True)
    print("check rc", c.returncode, c.stdout[-700:], c.stderr[-300:])
shutil.rmtree(W, ignore_errors=True)
