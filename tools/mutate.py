"""development aid: syntactic mutants of the code under test that no check notices
usage: mutate.py list OUT.jsonl [path-prefix ...]     write the mutants of lines the checks execute (coverage in /tmp/cov/Pxx)
       mutate.py run  IN.jsonl OUT.jsonl [stride offset]   try each: checks first (fewest first), the stable tests for survivors
Runs on copies of /repo and /verif/mc under /tmp/mut; nothing here decides a property."""
import ast, collections, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading

SRC = "/tmp/mut/base/src/DLMS_SPODES"        # a copy of /repo, so that work in /repo goes on meanwhile
PY = "/opt/venv/bin/python"


def coverage():
    cov = collections.defaultdict(set)
    for p in sorted(os.listdir("/tmp/cov")):
        for l in open("/tmp/cov/" + p):
            f, n, k = l.strip().rsplit(":", 2)
            if k == "f":
                cov[f, int(n)].add(p)
    return cov


SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr, ast.And: ast.Or, ast.Or: ast.And}


def variants(n):
    """[(name, replacement node)] of node n"""
    if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
        m = copy.deepcopy(n); m.ops[0] = SWAP[type(n.ops[0])](); yield "cmp", m
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n); m.op = SWAP[type(n.op)](); yield "bool", m
        for i in range(len(n.values)):
            m = copy.deepcopy(n); del m.values[i]
            yield f"drop{i}", m if len(m.values) > 1 else m.values[0]
    if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP:
        if isinstance(n, ast.BinOp) and (isinstance(n.left, (ast.JoinedStr,)) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return
        m = copy.deepcopy(n); m.op = SWAP[type(n.op)](); yield "op", m
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield "not", n.operand
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield "const", ast.Constant(not n.value)
        elif isinstance(n.value, int):
            yield "const", ast.Constant(n.value + 1)
            if n.value > 1:
                yield "const-", ast.Constant(n.value - 1)
        elif isinstance(n.value, bytes) and n.value:
            yield "const", ast.Constant(n.value[:-1] + bytes([n.value[-1] ^ 1]))
    if isinstance(n, ast.If):
        m = copy.deepcopy(n); m.test = ast.UnaryOp(ast.Not(), n.test); yield "neg", m
    if isinstance(n, ast.IfExp):
        m = copy.deepcopy(n); m.body, m.orelse = m.orelse, m.body; yield "swap", m
    if isinstance(n, ast.Slice):
        if n.lower is not None:
            m = copy.deepcopy(n); m.lower = None; yield "slice", m
        if n.upper is not None:
            m = copy.deepcopy(n); m.upper = None; yield "slice", m
    if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        yield "del", ast.Pass()
    if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
        yield "del", ast.Pass()
    if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        yield "ret", ast.Return(ast.Constant(None))
    if isinstance(n, ast.Break):
        yield "jump", ast.Continue()
    if isinstance(n, ast.Continue):
        yield "jump", ast.Break()


SKIP_CALLS = ("log", "print", "warn")


def skip(n):
    s = ast.unparse(n)
    return isinstance(n, ast.Expr) and (s.startswith(("logger.", "print(", "log(", "warn", "self._log")) or "logger." in s) or isinstance(n, ast.Raise) and False


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def mutants(path):
    """(line, name, old text, position, replacement) of every mutant inside functions"""
    src = open(os.path.join(SRC, path), encoding="utf-8").read()
    tree = ast.parse(src)
    seen = set()
    for f in functions(tree):
        body = f.body
        todo = list(body)
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.JoinedStr)) or isinstance(n, ast.Raise) and 0:
                if not isinstance(n, ast.ClassDef):
                    pass
                continue
            if isinstance(n, ast.Expr) and skip(n):
                continue
            if hasattr(n, "lineno"):
                key = (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)
                for name, m in variants(n):
                    k = (*key, type(n).__name__, name, ast.dump(m))
                    if k not in seen:
                        seen.add(k)
                        yield key, name, n, m
            if isinstance(n, ast.Raise):        # the message of an exception is not mutated
                continue
            for fld, v in ast.iter_fields(n):
                if fld in ("annotation", "returns"):
                    continue
                for c in v if isinstance(v, list) else [v]:
                    if isinstance(c, ast.AST):
                        todo.append(c)


def apply(src, key, m):
    """text with the node at key replaced by the source of m"""
    l0, c0, l1, c1 = key
    lines = src.encode().split(b"\n")
    pre = b"\n".join(lines[:l0 - 1] + [lines[l0 - 1][:c0]])
    post = b"\n".join([lines[l1 - 1][c1:]] + lines[l1:])
    t = ast.unparse(ast.fix_missing_locations(m))
    if isinstance(m, ast.stmt):
        ind = " " * c0
        t = ("\n" + ind).join(t.split("\n"))
    elif not isinstance(m, (ast.Slice, ast.Constant)):
        t = "(" + t + ")"
    out = (pre + t.encode() + post).decode()
    ast.parse(out)
    return out


def cmd_list(out, *prefixes):
    cov = coverage()
    n = skipped = 0
    with open(out, "w") as fo:
        for root, _, files in os.walk(SRC):
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.relpath(os.path.join(root, fn), SRC)
                if prefixes and not any(path.startswith(p) for p in prefixes):
                    continue
                src = open(os.path.join(SRC, path), encoding="utf-8").read()
                for key, name, old, m in mutants(path):
                    checks = sorted(cov.get((path, key[0]), ()))
                    if not checks:
                        skipped += 1
                        continue
                    try:
                        apply(src, key, m)
                    except SyntaxError:
                        continue
                    fo.write(json.dumps({"file": path, "key": key, "name": name, "old": ast.unparse(old)[:200], "new": ast.unparse(ast.fix_missing_locations(m))[:200], "checks": checks}) + "\n")
                    n += 1
    print(n, "mutants,", skipped, "on lines no check executes")


def find(path, rec):
    for key, name, old, m in mutants(path):
        if list(key) == rec["key"] and name == rec["name"] and ast.unparse(ast.fix_missing_locations(m))[:200] == rec["new"]:
            return key, m


def times():
    t = {}
    for l in open("/tmp/times.txt"):
        p, s = l.split()
        t[p] = float(s)
    return t


OVER = {p["id"]: [f.split("DLMS_SPODES/")[1] for f in p["anchors"]["files"]] for p in map(json.loads, open("/verif/properties.jsonl"))}
local = threading.local()
count = 0
lock = threading.Lock()


def workdir():
    global count
    if not hasattr(local, "d"):
        with lock:
            count += 1
            local.d = f"/tmp/mut/w{count}"
        shutil.rmtree(local.d, ignore_errors=True)
        shutil.copytree("/tmp/mut/base", local.d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        os.makedirs(local.d + "/v")
        shutil.copytree("/tmp/mut/mc", local.d + "/v/mc", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy("/verif/known_findings.txt", local.d + "/v/")
    return local.d


def attempt(rec, T, cap):
    d = workdir()
    path = rec["file"]
    orig = os.path.join(SRC, path)
    dst = os.path.join(d, "repo/src/DLMS_SPODES", path)
    src = open(orig, encoding="utf-8").read()
    key, m = find(path, rec)
    open(dst, "w", encoding="utf-8").write(apply(src, key, m))
    res = dict(rec)
    try:
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_JOBS="1", VERIF_FAILFAST="1", VERIF_MAXV="20", VERIF_SEED="1", VERIF_TIER="quick")
        checks = sorted(rec["checks"], key=lambda p: (path not in OVER.get(p, ()), T.get(p, 60)))
        spent = 0
        res["result"] = "survived"
        for p in checks:
            if spent + T.get(p, 60) > cap and spent:
                res["skipped"] = checks[checks.index(p):]
                break
            spent += T.get(p, 60)
            try:
                r = subprocess.run([PY, "mc/run.py", p], cwd=d + "/v", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
                if r.returncode:
                    res["result"] = f"caught {p}"
                    break
            except subprocess.TimeoutExpired:
                res["result"] = f"timeout {p}"
                break
        if res["result"] == "survived":
            e2 = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([PY, "/verif/tools/stable.py", d + "/repo"], capture_output=True, text=True, timeout=300, env=e2)
            res["tests"] = r.stdout.strip()[-60:]
    finally:
        shutil.copy(orig, dst)
    return res


def cmd_run(inp, out, stride="1", offset="0", cap="150", jobs="8"):
    recs = [json.loads(l) for l in open(inp)]
    random.Random(5).shuffle(recs)
    recs = recs[int(offset)::int(stride)]
    done = set()
    if os.path.exists(out):
        done = {(r["file"], *r["key"], r["name"], r["new"]) for r in map(json.loads, open(out))}
    recs = [r for r in recs if (r["file"], *r["key"], r["name"], r["new"]) not in done]
    T = times()
    print(len(recs), "to try", flush=True)
    with ThreadPoolExecutor(int(jobs)) as ex, open(out, "a") as fo:
        for r in ex.map(lambda x: attempt(x, T, float(cap)), recs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()


globals()["cmd_" + sys.argv[1]](*sys.argv[2:])
