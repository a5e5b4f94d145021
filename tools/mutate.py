"""Mutation campaign (development aid): tools/mutate.py OUTDIR SEED N [FILE-substring ...]
Draws N random mutants of the source, drops those the repository's tests notice, runs the properties of the file on the
rest (bounded companion first, then the full check) and lists the survivors for review."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = "src/ecoengine/"
PROPS = {
    "objects/building/Building.py": "B01 B02", "objects/building/ClimateZone.py": "B03",
    "objects/building/UtilityCostTracker.py": "U01 U02 U03 U04",
    "objects/components/storage/MixedStorageTank.py": "T01", "objects/components/storage/StratifiedTank.py": "T02 T03",
    "objects/components/storage/EnergyTank.py": "T04 M03", "objects/components/storage/SlugOverlayTank.py": "T04 M03",
    "objects/components/heating/WaterHeater.py": "H01 H02", "objects/components/heating/Controls.py": "H01 S03",
    "objects/components/heating/PerformanceMap.py": "H02",
    "objects/dhwsystems/DHWSystem.py": "M03 S01 S03 S04 S05 S02 S06",
    "objects/dhwsystems/InstantWHSystem.py": "S01 M03",
    "objects/dhwsystems/recirc_systems/SwingSystem.py": "R04 R02 R03 S05 S06 S01",
    "objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py": "R02 R03 R04 S05 S06",
    "objects/dhwsystems/recirc_systems/RecircSystem.py": "R01", "objects/dhwsystems/recirc_systems/ParallelLoopSystem.py": "R01 M03",
    "objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py": "M03 S01 S03 S04 S02",
    "objects/dhwsystems/rtp_systems/RTPSystem.py": "S01 R01", "objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py": "S07 M03 S01 S05 S06",
    "objects/dhwsystems/utils.py": "R05 S07", "objects/simulation/SimulationRun.py": "U03 M01 M02",
    "interfaces/Simulator.py": "M01 M02", "interfaces/EcosizerEngine.py": "E01 E02 B03"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}
SWAP = {"supply_temp_f": "storage_temp_f", "storage_temp_f": "supply_temp_f", "on_sensor_fract": "off_sensor_fract",
        "on_trigger_t_f": "off_trigger_t_f", "max": "min", "min": "max", "return_temp_f": "supply_temp_f",
        "peak_load_shape": "avg_load_shape", "oat_f": "inlet_water_temp_f", "inlet_temp_f": "outlet_temp_f",
        "outlet_temp_f": "inlet_temp_f", "tm_on_temp_f": "tm_off_temp_f", "tm_off_temp_f": "tm_on_temp_f"}


def sites(text):
    tree = ast.parse(text)
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    doc = set()
    for n in ast.walk(tree):
        for f in ("body",):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                doc.add(b[0])
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or "plot" in fn.name or fn.name in ("__repr__", "get_failure_message"):
            continue
        for n in ast.walk(fn):
            if isinstance(n, (ast.Raise, ast.JoinedStr)):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                a, b = span(n.left)[1], span(n.comparators[0])[0]
                op = CMP[type(n.ops[0])]
                out.append((a, b, " " + op + " ", "cmp"))
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, b = span(n.left)[1], span(n.right)[0]
                mid = raw[a:b].decode()
                if "(" not in mid and ")" not in mid and "\n" not in mid:
                    out.append((a, b, " " + BIN[type(n.op)] + " ", "bin"))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                a, b = span(n)
                out.append((a, b, repr(n.value + 1) if n.value in (0, 1) else repr(n.value * 2 if isinstance(n.value, int) else n.value * 1.05), "const"))
            if isinstance(n, ast.BoolOp):
                a, b = span(n.values[0])[1], span(n.values[1])[0]
                mid = raw[a:b].decode()
                if mid.strip() in ("and", "or"):
                    out.append((a, b, " or " if isinstance(n.op, ast.And) else " and ", "bool"))
            if isinstance(n, (ast.Name, ast.Attribute)):
                nm = n.id if isinstance(n, ast.Name) else n.attr
                if nm in SWAP and isinstance(n.ctx, ast.Load):
                    a, b = span(n)
                    out.append((b - len(nm), b, SWAP[nm], "name"))
            if isinstance(n, (ast.AugAssign, ast.Expr)) and n not in doc and not isinstance(getattr(n, "value", None), (ast.Constant, ast.Yield)):
                a, b = span(n)
                out.append((a, b, "pass", "del"))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                a, b = span(n)
                c, d = span(n.operand)
                out.append((a, b, "(" + raw[c:d].decode() + ")", "not"))
            if isinstance(n, ast.If):
                a, b = span(n.test)
                out.append((a, b, "(" + raw[a:b].decode() + ") and False", "dead"))
    return raw, out


def run(job):
    k, f, a, b, new, kind, out = job
    w = tempfile.mkdtemp(prefix="mut-")
    d = w + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", d])
        p = f"{d}/{SRC}{f}"
        raw = open(p, "rb").read()
        line = raw[:a].count(b"\n") + 1
        old = raw.split(b"\n")[line - 1].decode().strip()
        open(p, "wb").write(raw[:a] + new.encode() + raw[b:])
        now = open(p, "rb").read().split(b"\n")[line - 1].decode().strip()
        rec = {"id": k, "file": f, "line": line, "kind": kind, "old": old, "new": now}
        t = subprocess.run(f"cd {d} && PYTHONPATH={d}/src timeout 200 /opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider src/ecoengine/tests 2>&1 | tail -3",
                           shell=True, capture_output=True, text=True)
        if " passed" not in t.stdout or "failed" in t.stdout or "error" in t.stdout:
            rec["tests"] = "killed"
            return rec
        rec["tests"] = "pass"
        rec["caught"] = None
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=w + "/ev")
        for mode in (["--concrete"], []):
            if mode == [] and os.environ.get("NATIVE_ONLY"):
                break
            for prop in PROPS[f].split():
                r = subprocess.run(["timeout", "900", "python3-vt", "check.py", prop] + mode, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                   env=env, capture_output=True, text=True)
                if r.returncode == 1:
                    rec["caught"] = prop + ("" if mode else " (proof)")
                    break
            if rec["caught"]:
                break
        return rec
    except Exception as e:
        return {"id": k, "file": f, "error": str(e)}
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    outp, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    pool = []
    for f in PROPS:
        if len(sys.argv) > 4 and not any(s in f for s in sys.argv[4:]):
            continue
        raw, out = sites(open(f"/repo/{SRC}{f}").read())
        rng.shuffle(out)
        pool += [(f,) + o for o in out[:max(20, len(out) // 2)]]
    rng.shuffle(pool)
    jobs = [(i,) + x + (outp,) for i, x in enumerate(pool[:n])]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex, open(outp, "a") as o:
        for r in ex.map(run, jobs):
            o.write(json.dumps(r) + "\n")
            o.flush()
