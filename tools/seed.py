"""seed.py FILE.py...: (re)creates /verif/seeded/<id> from a description and confirms it on /repo.

A description (or each item of its SEEDS) defines; other words select seeds by name. It has SEED, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text).
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests_ok():
    out = "/tmp/seed_tests.json"
    sh(f"bash /opt/vp/test.sh {out}")
    r = json.load(open(out))
    return len(r.get("passed", [])) >= 46, r


def main(paths, check=True, only=()):
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    todo = []
    for path in paths:
        d = {}
        exec(open(path).read(), d)
        todo += d.get("SEEDS") or [d]
    for d in todo:
        if only and not any(o in d["SEED"] for o in only):
            continue
        dst = os.path.join(ROOT, "seeded", d["SEED"])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        try:
            for f, old, new in d["EDITS"]:
                p = os.path.join(REPO, "src/psion", f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit(f"{d['SEED']}: {f}: {s.count(old)} matches of {old!r}")
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            open(os.path.join(dst, "demo.py"), "w").write(d["DEMO"].lstrip())
            if "harness" in d["DEMO"]:
                shutil.copy(os.path.join(ROOT, "tools/demo_harness.py"), os.path.join(dst, "harness.py"))
            open(os.path.join(dst, "demo.sh"), "w").write(
                '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" PYTHONWARNINGS=ignore\n'
                'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(dst, "demo.sh"), 0o755)
            json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
            ok, _ = tests_ok()
            bad = sh(f"bash {dst}/demo.sh", cwd=REPO)
            caught = "-"
            if check:
                r = sh(f"timeout 900 /opt/venv/bin/python run.py {d['PROPERTY']}", cwd=ROOT)
                caught = {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc{r.returncode}: {r.stderr[-800:]}")
        finally:
            sh("git -C /repo checkout -- .")
        good = sh(f"bash {dst}/demo.sh", cwd=REPO)
        print(f"{d['SEED']:10} {d['PROPERTY']} tests={'ok' if ok else 'FAIL'} demo_clean={good.returncode} demo_bug={bad.returncode} check={caught}")
        if good.returncode != 0:
            print("   clean demo output:", good.stdout[-400:], good.stderr[-800:])
        if bad.returncode != 1 or "FAILED" not in bad.stdout:
            print("   bug demo output:", bad.stdout[-300:], bad.stderr[-500:])
        sys.stdout.flush()


main([a for a in sys.argv[1:] if a.endswith(".py")], "--nocheck" not in sys.argv, [a for a in sys.argv[1:] if not a.startswith("-") and not a.endswith(".py")])
