#!/opt/venv/bin/python
"""usage: run.py PROPERTY [--replay FILE]     (VERIF_TIER=quick|thorough, VERIF_SEED=n, VERIF_REPO=/repo)
exit 0: held on everything explored; exit 1 with VIOLATION lines: broken."""
import concurrent.futures as cf
import fnmatch
import importlib.util
import io
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import time

PY = "/opt/venv/bin/python"
seed = os.environ.get("VERIF_SEED", "1")
seed = int(seed) if seed.lstrip("-").isdigit() else 1
if os.environ.get("PYTHONHASHSEED") != str(seed % 4294967296) or os.environ.get("PYTHONUTF8") != "1":
    env = dict(os.environ, PYTHONHASHSEED=str(seed % 4294967296), PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
    env.pop("PYTHONPATH", None)
    os.execve(PY if os.path.exists(PY) else sys.executable, [PY if os.path.exists(PY) else sys.executable] + sys.argv, env)

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import env  # noqa: E402
import explorer  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
LIMIT = {"quick": 800, "thorough": 6 * 3600}[TIER]


def known_findings(pid):
    """[(pattern, text)] of `known:` lines for pid; pattern is matched against unit/sub/tag/trace"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.rstrip("\n")
            if not line.startswith("known: property=" + pid + " "):
                continue
            body = line[len("known: property=" + pid + " "):]
            sig, _, text = body.partition(" :: ")
            assert sig.startswith("sig=") and text, line
            out.append((sig[4:].strip(), text.strip()))
    return out


def matches(sig, pat):
    """pat: literal text in which only * is special"""
    return re.fullmatch(".*".join(re.escape(x) for x in pat.split("*")), sig, re.S) is not None


def signature(v):
    return f"{v['unit']}/{v['sub']}/{v['tag']}/{v['trace']}"


def load(pid):
    path = os.path.join(HERE, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def work(job):
    name, fn, shard, nshards, only = job
    ctx = explorer.Ctx(TIER, seed, name, shard, nshards, only)
    out = sys.stdout
    sys.stdout = io.StringIO()
    t = time.time()
    try:
        fn(ctx)
    except env.CodeUnderTestBroken as e:
        ctx.violations.append({"unit": name, "sub": "import", "tag": "import", "trace": "", "msg": str(e)})
    except (Exception, explorer.Hang) as e:       # outside an execution: the code under test failed while the unit was prepared
        ctx._report("prepare", "", e)
    finally:
        sys.stdout = out
    r = ctx.result()
    r["wall"] = round(time.time() - t, 2)
    return r


JOBS = []


def work_i(i):
    soft = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    return work(JOBS[i])


def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    only = None
    t0 = time.time()
    env.setup()
    try:
        m = load(pid)
        units = list(explorer.UNITS)
        broken = None
    except env.CodeUnderTestBroken as e:
        units, broken = [], str(e)
        m = None
    except Exception as e:                               # the code under test failed while the check prepared its cases
        units, broken = [], f"preparing the cases: {type(e).__name__}: {e}"
        m = None
    if replay:
        r = json.load(open(replay))
        units = [u for u in units if u[0] == r["unit"]]
        only = (r["sub"], r["trace"])
    filt = os.environ.get("VERIF_UNIT")
    if filt:
        units = [u for u in units if fnmatch.fnmatch(u[0], filt)]
    for name, fn, s, ts in units:
        n = s if TIER == "quick" else ts
        if only:
            n = 1
        for i in range(n):
            JOBS.append((name, fn, i, n, only))
    results = []
    lost = []
    if JOBS:
        ex = cf.ProcessPoolExecutor(max_workers=min(int(os.environ.get("VERIF_JOBS", "8")), len(JOBS)), mp_context=mp.get_context("fork"))
        futs = {ex.submit(work_i, i): i for i in range(len(JOBS))}
        try:
            for f in cf.as_completed(futs, timeout=LIMIT):
                try:
                    results.append(f.result())
                except Exception as e:
                    lost.append((JOBS[futs[f]][0], f"{type(e).__name__}: {e}"))
                    continue
                if os.environ.get("VERIF_FAILFAST"):          # development aid (tools/mutate.py)
                    kn = known_findings(pid)
                    if any(not any(matches(signature(v), pat) for pat, _ in kn) for v in results[-1]["violations"]):
                        for p in list(ex._processes.values()):
                            p.kill()
                        break
        except cf.TimeoutError:
            lost.append(("*", f"time limit {LIMIT} s"))
            for p in list(ex._processes.values()):
                p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    violations = [v for r in results for v in r["violations"]]
    if broken:
        violations.append({"unit": "*", "sub": "import", "tag": "import", "trace": "", "msg": broken})
    for name, why in lost:
        if why.startswith("BrokenProcessPool") or "MemoryError" in why:
            violations.append({"unit": name, "sub": "process", "tag": "died", "trace": "", "msg": f"the process exploring it ended: {why}"})
    known = known_findings(pid)
    hit = {}
    fresh = []
    for v in violations:
        for pat, text in known:
            if matches(signature(v), pat):
                hit[(pat, text)] = hit.get((pat, text), 0) + 1
                break
        else:
            fresh.append(v)
    per_unit = {}
    for r in results:
        u = per_unit.setdefault(r["unit"], {"states": 0, "transitions": 0, "traces": 0, "wall_s": 0.0})
        u["states"] += r["states"]
        u["transitions"] += r["transitions"]
        u["traces"] += r["traces"]
        u["wall_s"] = round(max(u["wall_s"], r["wall"]), 2)
    caps = sorted({c for r in results for c in r["caps"]})
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["traces"] for r in results),
        "distinct_executions": sum(r["distinct"] for r in results),
        "max_history_depth": max([r["depth"] for r in results] or [0]),
        "samples": [s for r in results for s in r["samples"]][:12],
        "bounds": list(dict.fromkeys(b for r in results for b in r["bounds"])),
        "exhaustive": not caps and not lost,
        "caps": caps,
        "units": per_unit,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay and not filt:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": TIER, "seed": seed, "level": "model_checking", "coverage": cov,
                       "assumptions": getattr(m, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
                       "violations": len(fresh), "known_findings_reproduced": [t for _, t in hit]}, f, indent=1, ensure_ascii=False)
    print(f"{pid} [{TIER}] states={cov['states']} transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} "
          f"units={len(per_unit)} wall={time.time() - t0:.1f}s")
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in per_unit.items():
            print("   ", k, v)
    for c in caps:
        print("cap:", c)
    for (pat, text), n in hit.items():
        print(f"KNOWN-FINDING: property={pid} {text}")
    if not fresh and (lost or (not results and not broken)):
        print("no answer:", lost or "no unit ran", file=sys.stderr)
        sys.exit(3)
    if fresh:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        fresh.sort(key=lambda v: (v["unit"], len(v["trace"])))
        seen = {}
        for v in fresh:
            key = (v["unit"], v["sub"], v["tag"])
            seen[key] = seen.get(key, 0) + 1
            num = list(seen).index(key) + 1
            if seen[key] > (3 if not os.environ.get("VERIF_ALL") else 10**9) or len(seen) > 25:
                continue
            path = os.path.join(d, f"{pid}-{num}-{seen[key]}.json")
            v["property"] = pid
            v["how"] = f"VERIF_TIER={TIER} VERIF_SEED={seed} {PY} mc/run.py {pid} --replay {path}"
            json.dump(v, open(path, "w"), indent=1, ensure_ascii=False)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"    {v['unit']}/{v['sub']} [{v['tag']}] trace={v['trace'][:300]}\n      {v['msg'][:500]}")
        print(f"{len(fresh)} violations in {len(seen)} groups")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
