"""Runs the harnesses of one property: proves, replays, samples, reports."""
from __future__ import annotations
import glob
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
EVDIR = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPO_PY = "/opt/venv/bin/python"


def load_specs():
    import specs
    for m in sorted(x.name for x in pkgutil.iter_modules(specs.__path__)):
        importlib.import_module("specs." + m)


def _init():
    sys.setrecursionlimit(50000)


def prove_harness(h, seed):
    """Symbolic run. -> dict"""
    from .explore import Explorer, PathDead
    from .interp import Interp
    from .symv import SymV, Discharger, contract_handler, model_inputs
    from .values import Unsupported
    from .harness import CONTRACTS, CheckFailed, NotModelled, run_concrete
    import z3
    t0 = time.time()
    out = {"harness": h.name, "obligations": [], "error": None, "paths": 0}
    ex = Explorer(feas_ms=h.feas_ms, max_paths=h.max_paths, deadline=t0 + h.wall)
    I = Interp(SRC, ex)
    v = SymV(I)
    for q in h.uses:
        I.contracts[CONTRACTS[q].qualname] = contract_handler(CONTRACTS[q], v)
    I.loop_specs = dict(h.loops)
    n_paths = [0]

    def body():
        try:
            n_paths[0] += 1
            h.fn(v)
        except CheckFailed:
            pass
        return ("done", None)
    try:
        ex.run_paths(body)
    except NotModelled as e:
        out["error"] = f"inapplicable: {e}"
    except Unsupported as e:
        out["error"] = f"unsupported: {e}"
    except (AttributeError, ImportError, NameError, KeyError, IndexError, TypeError, ValueError) as e:
        out["error"] = f"inapplicable: {type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-1500:]
    except z3.Z3Exception as e:
        out["error"] = f"unsupported: z3: {e}"
    except RecursionError:
        out["error"] = "unsupported: recursion"
    out["paths"] = n_paths[0]
    d = Discharger(timeout_ms=h.timeout_ms, seed=seed)
    viol = []
    deadline = t0 + h.wall
    for name, pc, t, neg, info in ex.obligations:
        if time.time() > deadline:
            out["obligations"].append([name, "unknown", info])
            continue
        lemma = isinstance(info, tuple) and info[0] == "fact"
        if lemma:
            full, info = info[1], None
            r, m = d.prove(pc, t)
            if r != "unsat":
                # the listed facts did not suffice: decide it from everything known
                r, m = d.prove(full, t)
                pc = full
        else:
            r, m = d.prove(pc, t)
        st = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r]
        rec = [name, st, info]
        if st == "refuted":
            rec_in = None
            tried = 0
            if sum(1 for x in viol if x.get("inputs")) < 1 and time.time() < deadline:
                for mm in d.robust_models(pc, t, neg, m, v.decl):
                    tried += 1
                    try:
                        inp = model_inputs(mm, v.decl)
                        stt, cv = run_concrete(h, inputs=inp)
                    except (Unsupported, NotModelled):
                        continue
                    except Exception:
                        continue
                    if stt == "fail":
                        rec_in = cv.inputs
                        viol.append({"label": name, "inputs": rec_in, "failures": cv.failures, "source": "model"})
                        break
            if rec_in is None and d.rounding_only(pc, neg, v.decl):
                rec[1] = "rounding"
            elif rec_in is None:
                try:
                    mtxt = {k: val for k, val in model_inputs(m, v.decl).items()}
                except BaseException:
                    mtxt = str(m)[:2000]
                viol.append({"label": name, "inputs": None, "info": info, "model": mtxt,
                             "obligation": str(z3.simplify(t))[:2000]})
        out["obligations"].append(rec)
    out["violations"] = viol
    out["used"] = I.used
    out["contracts_used"] = I.contract_used
    out["solver_s"] = round(d.time, 3)
    out["feas_s"] = round(ex.feas_time, 3)
    out["stats"] = d.stats
    out["wall_s"] = round(time.time() - t0, 3)
    return out


def sample_harness(h, seed, n, stop=True, wall=60):
    """Concrete runs of the same harness on the real code."""
    from .harness import run_concrete, NotModelled
    rng = random.Random(f"{seed}:{h.prop}:{h.name}")
    res = {"harness": h.name, "ok": 0, "reject": 0, "fail": None, "reached": {}, "error": None, "example": None}
    t0 = time.time()
    tries = 0
    try:
        while res["ok"] < n and tries < n * 30 and time.time() - t0 < wall:
            tries += 1
            st, v = run_concrete(h, rng=rng)
            if st == "reject":
                res["reject"] += 1
                continue
            for k, c in v.reached.items():
                res["reached"][k] = res["reached"].get(k, 0) + c
            if st == "fail":
                res["fail"] = {"label": v.failures[0], "inputs": v.inputs, "failures": v.failures, "source": "sample"}
                if stop:
                    break
            else:
                res["ok"] += 1
                if res["example"] is None:
                    res["example"] = v.inputs
    except NotModelled as e:
        res["error"] = f"inapplicable: {e}"
    except (AttributeError, ImportError, NameError, KeyError, IndexError, TypeError, ValueError) as e:
        res["error"] = f"inapplicable: {type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-1500:]
    res["tries"] = tries
    res["wall_s"] = round(time.time() - t0, 3)
    return res


def _worker(job):
    kind, prop, name, seed, n = job
    _init()
    import threading
    from .harness import REGISTRY
    h = next(x for x in REGISTRY[prop] if x.name == name)
    box = {}

    def go():
        try:
            if kind == "prove":
                box["r"] = prove_harness(h, seed)
            else:
                box["r"] = sample_harness(h, seed, n)
        except BaseException as e:
            box["r"] = {"harness": name, "obligations": [], "violations": [], "used": {}, "contracts_used": {},
                        "stats": {}, "error": f"internal: {type(e).__name__}: {str(e)[:300]}", "trace": traceback.format_exc()[-3000:],
                        "ok": 0, "reject": 0, "fail": None, "reached": {}, "example": None}
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return kind, name, box["r"]


def _proc(job, q):
    q.put(_worker(job))


def run_jobs(jobs, limit_s, nproc):
    """Each job in its own process (a hung solver cannot take the run down)."""
    ctx = mp.get_context("fork")
    res = []
    pending = list(jobs)
    live = []
    while pending or live:
        while pending and len(live) < nproc:
            j = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_proc, args=(j, q))
            p.start()
            live.append((p, q, j, time.time()))
        time.sleep(0.01)
        nl = []
        for p, q, j, t0 in live:
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                pass
            if got is not None:
                res.append(got)
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                try:
                    got = q.get(timeout=1)
                    res.append(got)
                except Exception:
                    res.append((j[0], j[2], {"harness": j[2], "error": "internal: worker died", "obligations": [],
                                             "violations": [], "used": {}, "contracts_used": {}, "stats": {},
                                             "ok": 0, "reject": 0, "fail": None, "reached": {}, "example": None}))
            elif time.time() - t0 > limit_s:
                p.kill()
                p.join()
                res.append((j[0], j[2], {"harness": j[2], "error": "internal: worker timeout", "obligations": [],
                                         "violations": [], "used": {}, "contracts_used": {}, "stats": {},
                                         "ok": 0, "reject": 0, "fail": None, "reached": {}, "example": None}))
            else:
                nl.append((p, q, j, t0))
        live = nl
    return res


def confirm(prop, name, inputs):
    """Replay in the repository's own virtual environment."""
    payload = json.dumps({"property": prop, "harness": name, "inputs": inputs})
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    try:
        p = subprocess.run([REPO_PY, os.path.join(VERIF, "replay.py"), "-"], input=payload, text=True,
                           capture_output=True, env=env, timeout=120)
    except Exception as e:
        return None, str(e)
    return p.returncode, (p.stdout + p.stderr)[-3000:]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, SRC)
    # dependencies of the repository that the tooling environment lacks (plotly)
    sys.path += sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(REPO_PY)), "lib", "python3*", "site-packages")))
    _init()
    load_specs()
    from .harness import REGISTRY
    import ecoengine
    assert os.path.realpath(ecoengine.__file__).startswith(os.path.realpath(SRC)), ecoengine.__file__
    hs = [h for h in REGISTRY.get(prop, []) if tier == "thorough" or h.tier == "quick"]
    if only:
        hs = [h for h in hs if only in h.name]
    if not hs:
        print(f"error: no harness for {prop}")
        return 2
    jobs = []
    mult = 1 if tier == "quick" else 10
    concrete = "--concrete" in argv      # development aid: bounded companion only
    for h in hs:
        if not concrete:
            jobs.append(("prove", prop, h.name, seed, 0))
    for h in hs:
        jobs.append(("sample", prop, h.name, seed, h.samples * mult))
    limit = 400 if tier == "quick" else 1500
    nproc = min(8, os.cpu_count() or 4)
    res = run_jobs(jobs, limit, nproc)
    proves = {n: r for k, n, r in res if k == "prove"}
    if concrete:
        proves = {h.name: {"obligations": [], "violations": [], "used": {}, "contracts_used": {}, "stats": {}} for h in hs}
    samples = {n: r for k, n, r in res if k == "sample"}

    violations, notes = [], []
    n_obl = n_dis = 0
    byname = {}
    for h in hs:
        p, s = proves[h.name], samples[h.name]
        for name, st, info in p["obligations"]:
            n_obl += 1
            key = f"{h.name}:{name}"
            b = byname.setdefault(key, {"proved": 0, "refuted": 0, "unknown": 0, "rounding": 0})
            b[st] += 1
            n_dis += st == "proved"
        if p.get("error"):
            notes.append(f"{h.name}: proof not completed ({p['error']})")
            if verbose:
                print(p.get("trace", ""))
        if s.get("error"):
            notes.append(f"{h.name}: bounded run not completed ({s['error']})")
            if verbose:
                print(s.get("trace", ""))
        conc = [x for x in p.get("violations", []) if x.get("inputs")]
        if s.get("fail"):
            conc.append(s["fail"])
        abstract = [x for x in p.get("violations", []) if not x.get("inputs")]
        unk = [o for o in p["obligations"] if o[1] == "unknown"]
        rnd = [o for o in p["obligations"] if o[1] == "rounding"]
        if rnd:
            notes.append(f"{h.name}: {len(rnd)} obligation(s) hold only up to rounding of constants: " +
                         ", ".join(sorted({u[0] for u in rnd}))[:300])
        if not conc and (abstract or unk or p.get("error")) and not s.get("error"):
            # deeper directed search before settling
            extra = sample_harness_iso(h, seed + 7919, max(4000, h.samples * 8), 90)
            if extra.get("fail"):
                conc.append(extra["fail"])
            s["ok"] += extra.get("ok", 0)
            s["reject"] += extra.get("reject", 0)
        for c in conc[:1]:
            rc, log = confirm(prop, h.name, c["inputs"])
            violations.append({"harness": h.name, "label": c["label"], "inputs": c["inputs"],
                               "failures": c["failures"], "source": c["source"],
                               "confirmed_in_repo_venv": rc == 1, "log": log})
        if not conc and abstract:
            a = abstract[0]
            violations.append({"harness": h.name, "label": a["label"], "inputs": None, "info": a.get("info"),
                               "model": a.get("model"), "obligation": a.get("obligation")})
        if unk:
            notes.append(f"{h.name}: {len(unk)} obligation(s) left undecided by the solvers: " +
                         ", ".join(sorted({u[0] for u in unk}))[:300])
        if s["ok"] == 0 and not s.get("fail") and not s.get("error"):
            notes.append(f"{h.name}: no concrete input satisfied the preconditions (vacuity not excluded)")
        if verbose:
            print(f"{h.name}: obl={len(p['obligations'])} proved={sum(o[1]=='proved' for o in p['obligations'])} "
                  f"paths={p.get('paths')} wall={p.get('wall_s')} solver={p.get('solver_s')} feas={p.get('feas_s')} "
                  f"samples ok={s['ok']} rej={s['reject']} {s.get('wall_s')}s err={p.get('error')} {s.get('error')}")

    known = [k for k in load_known() if k.get("property") == prop and k.get("status") != "fixed"]
    reported = []
    for k in known:
        hit = [v for v in violations if v["harness"] == k["harness"] and v["label"] == k["label"]]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
            violations = [v for v in violations if v not in hit]
    # report
    rdir = os.path.join(EVDIR, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    out_lines = []
    for i, v in enumerate(violations):
        path = os.path.join(rdir, f"{prop}-{i}.json")
        json.dump({"property": prop, **v, "replay_cmd": f"{REPO_PY} /verif/replay.py {path}"}, open(path, "w"),
                  indent=1, default=str)
        tail = "" if v.get("inputs") is not None else " no-failing-input-found"
        out_lines.append(f"VIOLATION property={prop} replay={path}{tail}")
    # violations with a failing input first
    out_lines.sort(key=lambda l: l.endswith("no-failing-input-found"))
    used = {}
    for p in proves.values():
        used.update(p.get("used", {}))
    cused = {}
    for p in proves.values():
        for k, c in p.get("contracts_used", {}).items():
            cused[k] = cused.get(k, 0) + c
    stats = {}
    for p in proves.values():
        for k, c in p.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + c
    wall = time.time() - t0
    import specs
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": f"python3-vt /verif/check.py {prop} --tier {tier}",
            "trusted_base": [
                "vengine symbolic interpreter (Python AST -> verification conditions)",
                "z3 5.3.2 / cvc5 1.1.2", "CPython parser (ast) and importlib"],
            "functions_under_contract": {k: used[k] for k in sorted(used)},
            "callee_contracts_used_at_call_sites": cused,
            "obligations_by_name": byname,
            "discharged_by": stats,
            "solver_s": round(sum(p.get("solver_s", 0) for p in proves.values()), 2),
            "feasibility_s": round(sum(p.get("feas_s", 0) for p in proves.values()), 2),
            "paths": {n: p.get("paths", 0) for n, p in proves.items()},
            "bounded_companion": {
                "what": "the same contracts evaluated on the real code under CPython (vacuity and engine cross-check; "
                        "counted as a bounded stand-in, never as proof)",
                "evaluations": sum(s["ok"] for s in samples.values()),
                "rejected_by_precondition": sum(s["reject"] for s in samples.values()),
                "samples": [s["example"] for s in samples.values() if s.get("example")][:2],
            },
            "not_proved_this_run": notes,
        },
        "assumptions": getattr(specs, "ASSUMPTIONS", []) + getattr(specs, "PROP_ASSUMPTIONS", {}).get(prop, []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    if n_dis < n_obl or any(p.get("error") for p in proves.values()):
        ev["coverage"]["explanation"] = "not every obligation was discharged on this run; see not_proved_this_run"
        if not violations:
            ev["level"] = "other"
    os.makedirs(EVDIR, exist_ok=True)
    json.dump(ev, open(os.path.join(EVDIR, f"{prop}.json"), "w"), indent=1, default=str)
    for n in notes:
        print("NOTE:", n)
    print(f"{prop}: {n_dis}/{n_obl} obligations discharged, {len(used)} functions, "
          f"{sum(s['ok'] for s in samples.values())} concrete evaluations, {wall:.1f}s")
    for l in out_lines:
        print(l)
    if verbose:
        for v in violations:
            print(json.dumps(v, indent=1, default=str)[:3000])
    return 1 if violations else 0


def sample_harness_iso(h, seed, n, wall):
    r = run_jobs([("sample", h.prop, h.name, seed, n)], wall + 30, 1)
    return r[0][2]
