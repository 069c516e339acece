"""run.py <ID> [--tier quick|thorough] [--replay FILE] [--list] - decide one property on /repo."""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("PSION_SRC", "/repo/src")


def main():
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    want = {"PYTHONHASHSEED": str(seed % 4294967295), "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": "/nonexistent/pycache", "TZ": "UTC", "PYTHONWARNINGS": "ignore"}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.path.insert(0, SRC)
    from mc import clock
    clock.install()
    import psion
    got = os.path.realpath(os.path.dirname(psion.__file__))
    if got != os.path.realpath(os.path.join(SRC, "psion")):
        print(f"psion was imported from {got}, not {SRC}", file=sys.stderr)
        return 2
    import logging
    logging.disable(logging.CRITICAL)
    from mc import core
    mod = importlib.import_module(f"mc.checks.{a.id.lower()}")
    if a.replay:
        return core.replay(mod, a.replay)
    return core.run_check(mod, a.tier, seed, a.workers)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
