"""mutate.py [--list] [--lanes N] [--files a,b] [--out FILE] [--slice i/n]: mutation analysis of the checks.

Every mutant is a one-node change of a file of /repo/src/psion, written to a scratch copy; the checks anchored at
that file run (quick tier) until one reports it. Only used while developing; no registered check uses this.
"""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FAST = ["C08", "C32", "C29", "C31", "C03", "C24", "C30", "C20", "C06", "C21", "C14", "C01", "C05", "C07", "C17", "C10", "C02", "C18",
        "C09", "C28", "C11", "C12", "C25", "C27", "C04", "C35", "C16", "C19", "C13", "C36", "C33", "C22", "C34", "C15", "C26", "C23", "C38", "C37"]


def props_for(rel):
    got = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        if any(f.endswith("psion/" + rel) for f in p["anchors"]["files"]):
            got.append(p["id"])
    extra = {"oauth2/models/scopes.py": ["C05", "C06", "C04"], "oauth2/exceptions.py": ["C05", "C10", "C31", "C04", "C07", "C11"],
             "oauth2/providers/base.py": ["C12", "C08", "C07", "C10", "C31"], "oauth2/adapter.py": ["C10"], "oauth2/mixins.py": ["C02"],
             "oauth2/config.py": ["C31", "C14"], "oauth2/authentication/methods/base.py": ["C07"],
             "oauth2/endpoints/base.py": ["C10"], "jose/exceptions.py": ["C19", "C25"],
             "webtools.py": ["C05", "C07", "C10", "C14", "C15", "C17", "C19", "C22", "C27", "C28", "C29", "C32"]}
    got = sorted(set(got) | set(extra.get(rel, [])), key=FAST.index)
    return got


class Sites(ast.NodeVisitor):
    """Collects (path-independent) mutation thunks: list of (lineno, description, function(tree copy))."""


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body:
            b = n.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
                out.add(id(b))
                out.add(id(b.value))
    return out


CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = docstrings(tree)
    skip = set()
    for n in nodes:  # messages and annotations and type aliases
        if isinstance(n, ast.Expr) and ast.unparse(n).startswith("logger."):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Raise) and "NotImplementedError" in ast.unparse(n):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if isinstance(m, (ast.JoinedStr, ast.Constant)):
                    skip.add(id(m))
        if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation is not None:
            for m in ast.walk(n.annotation):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns is not None:
            for m in ast.walk(n.returns):
                skip.add(id(m))
        if isinstance(n, ast.keyword) and n.arg == "description":
            for m in ast.walk(n):
                skip.add(id(m))
    index = {id(n): i for i, n in enumerate(nodes)}

    def build(edit):
        t = copy.deepcopy(tree)
        edit(list(ast.walk(t)))
        return ast.unparse(ast.fix_missing_locations(t))

    out = []

    def add(n, what, edit):
        out.append((getattr(n, "lineno", 0), what, edit))

    for n in nodes:
        if id(n) in skip or id(n) in docs:
            continue
        i = index[id(n)]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for k in CMP.get(type(n.ops[0]), []):
                def e(ns, i=i, k=k):
                    ns[i].ops = [k()]
                add(n, f"{ast.unparse(n)} -> {k.__name__}", e)
        if isinstance(n, ast.BoolOp):
            def e(ns, i=i):
                ns[i].op = ast.Or() if isinstance(ns[i].op, ast.And) else ast.And()
            add(n, f"flip and/or: {ast.unparse(n)[:60]}", e)
            for j in range(len(n.values)):
                def e(ns, i=i, j=j):
                    del ns[i].values[j]
                add(n, f"drop operand {j}: {ast.unparse(n)[:80]}", e)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def e(ns, i=i):
                ns[i].op = ast.UAdd()
                x = ns[i]
                x.__class__ = ast.Call
                x.func, x.args, x.keywords = ast.Name("bool", ast.Load()), [x.operand], []
            add(n, f"remove not: {ast.unparse(n)[:60]}", e)
        if isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                def e(ns, i=i, v=v):
                    ns[i].test = ast.Constant(v)
                add(n, f"if {ast.unparse(n.test)[:60]} -> {v}", e)
        if isinstance(n, ast.comprehension) and n.ifs:
            def e(ns, i=i):
                ns[i].ifs = []
            add(n, "drop comprehension filter", e)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                def e(ns, i=i, v=v):
                    ns[i].value = not v
                add(n, f"{v} -> {not v}", e)
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    def e(ns, i=i, w=w):
                        ns[i].value = w
                    add(n, f"{v} -> {w}", e)
            elif isinstance(v, (str, bytes)) and v:
                def e(ns, i=i, v=v):
                    ns[i].value = v + ("X" if isinstance(v, str) else b"X")
                add(n, f"{v!r} -> +X", e)
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            def e(ns, i=i):
                ns[i].value = ast.Constant(None)
            add(n, f"return None for {ast.unparse(n.value)[:60]}", e)
        if isinstance(n, ast.Call):
            for j, k in enumerate(n.keywords):
                if k.arg in ("description",):
                    continue
                def e(ns, i=i, j=j):
                    del ns[i].keywords[j]
                add(n, f"drop keyword {k.arg} of {ast.unparse(n.func)}", e)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                def e(ns, i=i):
                    a = ns[i].args
                    a[0], a[1] = a[1], a[0]
                add(n, f"swap args of {ast.unparse(n)[:60]}", e)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "strip", "rstrip", "upper", "lstrip", "copy", "deepcopy", "split", "hex") :
                def e(ns, i=i):
                    x = ns[i]
                    inner = x.func.value if not x.args or x.func.attr != "deepcopy" else x.args[0]
                    x.args, x.keywords, x.func = [inner], [], ast.Name("(lambda _v: _v)", ast.Load())
                add(n, f"drop .{n.func.attr}()", e)
        if isinstance(n, (ast.BinOp,)):
            flip = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
            k = flip.get(type(n.op))
            if k:
                def e(ns, i=i, k=k):
                    ns[i].op = k()
                add(n, f"{ast.unparse(n)[:60]} -> {k.__name__}", e)
        for field in ("body", "orelse", "finalbody"):
            body = getattr(n, field, None)
            if not isinstance(body, list):
                continue
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for j, st in enumerate(body):
                if id(st) in docs or id(st) in skip:
                    continue
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.AnnAssign, ast.Delete)):
                    def e(ns, i=i, field=field, j=j):
                        getattr(ns[i], field)[j] = ast.Pass()
                    add(st, f"delete: {ast.unparse(st)[:70]}", e)
        if isinstance(n, ast.ExceptHandler):
            def e(ns, i=i):
                ns[i].body = [ast.Raise(None, None)]
            add(n, f"except {ast.unparse(n.type) if n.type else ''}: re-raise", e)
    out.sort(key=lambda t: t[0])
    seen = set()
    for line, what, edit in out:
        try:
            new = build(edit)
        except Exception:
            continue
        if new in seen or new == ast.unparse(tree):
            continue
        seen.add(new)
        yield line, what, new


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--lanes", type=int, default=4)
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--files", default="")
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--only", default="", help="JSON-lines file of earlier results: rerun its survivors only")
    ap.add_argument("--done", default="", help="JSON-lines file of earlier results: skip them")
    ap.add_argument("--extra", default="", help="checks to run instead of those of the file")
    a = ap.parse_args()
    base = "/repo/src/psion"
    files = []
    for d, _, fs in os.walk(base):
        files += [os.path.relpath(os.path.join(d, f), base) for f in fs if f.endswith(".py")]
    files = sorted(f for f in files if not a.files or any(f.startswith(x) for x in a.files.split(",")))
    jobs = []
    again = None
    if a.only:
        again = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(a.only)) if r["result"] != "tests" and not r["result"].startswith("C")}
    done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(a.done))} if a.done else set()
    for f in files:
        ps = props_for(f)
        if a.extra:
            ps = []
        ps += [c for c in a.extra.split(",") if c and c not in ps]
        if not ps:
            continue
        for line, what, new in mutants(open(os.path.join(base, f)).read()):
            if (again is None or (f, line, what) in again) and (f, line, what) not in done:
                jobs.append((f, line, what, new, ps))
    print(len(jobs), "mutants", flush=True)
    if a.list:
        for j in jobs:
            print(*j[:3])
        return
    lock = threading.Lock()
    out = open(a.out, "w")
    it = iter(jobs)

    def lane(k):
        d = tempfile.mkdtemp(prefix=f"mut{k}_", dir="/tmp")
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        shutil.copytree(ROOT, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        env = dict(os.environ, PSION_SRC=d + "/repo/src", PYTHONPATH=d + "/repo/src", PYTHONDONTWRITEBYTECODE="1")
        while True:
            with lock:
                j = next(it, None)
            if j is None:
                break
            f, line, what, new, ps = j
            p = os.path.join(d, "repo/src/psion", f)
            old = open(p).read()
            open(p, "w").write(new)
            res = "SURVIVED"
            try:
                t = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"], cwd=d + "/repo", env=env, capture_output=True, text=True, timeout=120)
                tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ""
                t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=d + "/repo", env=env, capture_output=True, text=True, timeout=120) if "failed" in tail else t
                tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ""
                if "46 passed" not in tail and "47 passed" not in tail:
                    res = "tests"
                else:
                    for c in ps:
                        try:
                            r = subprocess.run([PY, "run.py", c, "--workers", str(a.workers)], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=600)
                        except subprocess.TimeoutExpired:
                            res = c + " TIMEOUT"
                            break
                        if r.returncode == 1:
                            res = c
                            break
                        if r.returncode != 0:
                            res = f"RC{r.returncode} {c} {r.stderr[-200:]}"
                            break
            except subprocess.TimeoutExpired:
                res = "tests"
            finally:
                open(p, "w").write(old)
            with lock:
                out.write(json.dumps({"file": f, "line": line, "what": what, "result": res}) + "\n")
                out.flush()
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=lane, args=(k,)) for k in range(a.lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
