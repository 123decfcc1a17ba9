"""development aid: stable.py REPO - how many of the stable tests pass on a copy of the repository"""
import json, os, re, subprocess, sys, tempfile, shutil
repo = os.path.abspath(sys.argv[1])
d = tempfile.mkdtemp(prefix="stable_")
t = open("/opt/vp/test.sh").read().replace("/repo", repo).replace("/opt/vp/work", d + "/work")
open(d + "/t.sh", "w").write(t)
subprocess.run(["bash", d + "/t.sh", d + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
try:
    o = json.load(open(d + "/o.json"))
    passed = set(o.get("passed", []) if isinstance(o, dict) else [])
except Exception:
    passed = set()
print(f"{sum(w in passed for w in want)} of {len(want)}")
shutil.rmtree(d)
