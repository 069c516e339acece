"""Exploration engine: exhaustive enumeration of cases x choice sequences on the real code."""
from __future__ import annotations

import hashlib
import json
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")


class Violation(BaseException):
    """Raised by ctx.fail; BaseException so that code under test cannot swallow it."""

    def __init__(self, message, key=None, detail=None):
        super().__init__(message)
        self.message = message
        self.key = key
        self.detail = detail


class Hang(BaseException):
    pass


class Stopped(BaseException):
    """Another worker has found a violation in an earlier case."""


class Divergence(BaseException):
    """The same choice prefix led to different choice points: the harness lost control."""


def jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return {"b": x.hex() if len(x) < 4000 else x[:4000].hex() + "..."}
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in x), key=repr)
    return repr(x)


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest()


class Ctx:
    """What a check sees: choices, failure reporting and coverage counters."""

    def __init__(self, tier, known=()):
        self.tier = tier
        self.known = set(known)
        self.known_hit = {}
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.choice_points = 0
        self.max_depth = 0
        self.outcomes = {}
        self.samples = []
        self.sample_len = 0
        self.prefix = []
        self.trail = []
        self.bound = None
        self.case_index = None
        self.stop = None

    # -- coverage ---------------------------------------------------------
    def state(self, *parts):
        self.states.add(digest(parts))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """One more complete execution compared with the oracle (inside a looping case)."""
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(jsonable(value))

    # -- verdicts ---------------------------------------------------------
    def fail(self, message, finding=None, **detail):
        if finding is not None and finding in self.known:
            self.known_hit[finding] = message
            return
        raise Violation(message, finding, detail)

    def check(self, cond, message, finding=None, **detail):
        if not cond:
            self.fail(message, finding, **detail)

    # -- nondeterminism ---------------------------------------------------
    def choose(self, n, label="", costs=None):
        """Return one of range(n); the engine enumerates all of them (within the cost bound)."""
        if n <= 1:
            return 0
        i = len(self.trail)
        if costs is None:
            costs = (0,) * n
        spent = self.trail[-1][4] if self.trail else 0
        if i < len(self.prefix):
            want_n, want_label, choice = self.prefix[i]
            if want_n != n or want_label != label:
                raise Divergence(f"at {i}: expected {want_n}/{want_label}, got {n}/{label}")
        else:
            choice = 0
        self.trail.append((n, label, choice, costs, spent + costs[choice]))
        self.choice_points += 1
        return choice

    def explore(self, run, bound=None, fork=False):
        """Run `run(self)` once for every choice sequence whose total cost is within bound.

        With fork=True every execution runs in its own forked process, so that process-wide state left
        behind by one execution cannot reach the next.
        """
        prefix = []
        count = 0
        while True:
            if self.stop is not None and self.stop.value < self.case_index:
                raise Stopped()
            self.prefix, self.trail = prefix, []
            self.bound = bound
            if fork:
                forked_execution(self, run)
            else:
                run(self)
            count += 1
            self.executions += 1
            self.max_depth = max(self.max_depth, len(self.trail))
            if len(self.trail) < len(prefix):
                raise Divergence("execution ended before its prefix was consumed")
            trail = self.trail
            nxt = None
            for i in range(len(trail) - 1, -1, -1):
                n, label, choice, costs, spent = trail[i]
                before = spent - costs[choice]
                for alt in range(choice + 1, n):
                    if bound is None or before + costs[alt] <= bound:
                        nxt = [(t[0], t[1], t[2]) for t in trail[:i]] + [(n, label, alt)]
                        break
                if nxt:
                    break
            if nxt is None:
                return count
            prefix = nxt


def forked_execution(ctx, run):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            s0, t0, n0 = set(ctx.states), ctx.transitions, ctx.traces
            ctx.outcomes, ctx.known_hit = {}, {}
            exc = None
            try:
                run(ctx)
            except Violation as v:
                exc = ("violation", v.message, v.key, jsonable(v.detail))
            except Divergence as d:
                exc = ("divergence", str(d), None, None)
            except BaseException as e:
                exc = ("exception", f"unexpected {type(e).__name__}: {e}"[:500], None, traceback.format_exc()[-4000:])
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((exc, ctx.trail, ctx.states - s0, ctx.transitions - t0, ctx.traces - n0,
                                      ctx.outcomes, ctx.known_hit)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked execution died")
    exc, ctx.trail, states, trans, traces, outcomes, known = pickle.loads(data)
    ctx.states |= states
    ctx.transitions += trans
    ctx.traces += traces
    for k, v in outcomes.items():
        ctx.outcome(k, v)
    ctx.known_hit.update(known)
    if exc:
        if exc[0] == "divergence":
            raise Divergence(exc[1])
        raise Violation(exc[1], exc[2], {"in_forked_execution": exc[3]})


def load_known(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:") and f"property={prop} " in line:
                parts = line.split(None, 3)
                keys[parts[2].split("=", 1)[1]] = parts[3] if len(parts) > 3 else ""
    return keys


def _alarm(_sig, _frm):
    raise Hang("case exceeded its time limit")


def run_one(mod, ctx, case, limit):
    """Run one case completely. Returns None or a violation record."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    traces0, exec0 = ctx.traces, ctx.executions
    try:
        bound = getattr(mod, "bound", None)
        b = bound(ctx.tier, case) if bound else None
        try:
            ctx.explore(lambda c: mod.run_case(c, case), b)
        except Divergence:
            # an execution depended on what an earlier one left in the process: isolate each one
            ctx.outcome("cases_needing_process_isolation")
            ctx.explore(lambda c: mod.run_case(c, case), b, fork=True)
        if ctx.traces == traces0:
            ctx.traces += ctx.executions - exec0
        return None
    except Violation as v:
        rec = {"kind": "violation", "message": v.message, "detail": jsonable(v.detail)}
    except Hang:
        rec = {"kind": "hang", "message": f"no result within {limit}s", "detail": traceback.format_exc()[-3000:]}
    except (Stopped, Divergence, MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa: the code under test may raise anything
        rec = {
            "kind": "exception",
            "message": f"unexpected {type(e).__name__}: {e}"[:500],
            "detail": traceback.format_exc()[-4000:],
        }
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rec["choices"] = [(t[0], t[1], t[2]) for t in ctx.trail]
    return rec


def isolated(mod, ctx, case, limit):
    """run_one in a forked child, so that process-wide state starts afresh."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            sub = Ctx(ctx.tier, ctx.known)
            sub.stop, sub.case_index = ctx.stop, ctx.case_index
            try:
                rec = run_one(mod, sub, case, limit)
                err = None
            except Stopped:
                rec, err = None, None
            except BaseException:
                rec, err = None, traceback.format_exc()
            data = pickle.dumps((rec, err, sub.states, sub.transitions, sub.traces, sub.executions,
                                 sub.choice_points, sub.max_depth, sub.outcomes, sub.samples, sub.known_hit))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError(f"isolated child died with status {status}")
    rec, err, *cov = pickle.loads(data)
    if err:
        raise RuntimeError(err)
    merge(ctx, cov)
    return rec


def merge(ctx, cov):
    states, transitions, traces, executions, cps, depth, outcomes, samples, known_hit = cov
    ctx.states |= states
    ctx.transitions += transitions
    ctx.traces += traces
    ctx.executions += executions
    ctx.choice_points += cps
    ctx.max_depth = max(ctx.max_depth, depth)
    for k, v in outcomes.items():
        ctx.outcome(k, v)
    for s in samples:
        if len(ctx.samples) < 6:
            ctx.samples.append(s)
    ctx.known_hit.update(known_hit)


def run_check(mod, tier, seed, workers=None):
    t0 = time.perf_counter()
    prop = mod.ID
    known = load_known(prop)
    cases = list(mod.cases(tier))
    limit = getattr(mod, "LIMIT", 300 if tier == "quick" else 3000)
    isolate = getattr(mod, "ISOLATE", False)
    workers = workers or min(getattr(mod, "WORKERS", 8), max(1, len(cases)))
    import multiprocessing as mp

    nxt = mp.Value("q", 0)
    stop = mp.Value("q", len(cases) + 1)
    chunk = max(1, min(64, len(cases) // (workers * 32) or 1))
    sys.stdout.flush()
    sys.stderr.flush()
    pipes, pids = [], []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            ok = 0
            try:
                os.close(r)
                for p in pipes:
                    os.close(p)
                ctx = Ctx(tier, known)
                ctx.stop = stop
                found, err = [], None
                try:
                    while err is None:
                        with nxt.get_lock():
                            start = nxt.value
                            nxt.value = start + chunk
                        if start >= len(cases) or stop.value < start:
                            break
                        for i in range(start, min(start + chunk, len(cases))):
                            if i > stop.value:
                                continue
                            ctx.case_index = i
                            rec = (isolated if isolate else run_one)(mod, ctx, cases[i], limit)
                            if rec:
                                rec["case_index"] = i
                                found.append(rec)
                                with stop.get_lock():
                                    stop.value = min(stop.value, i)
                                break
                            if not ctx.samples or len(ctx.trail) > ctx.sample_len:
                                ctx.sample_len = len(ctx.trail)
                                ctx.samples = [jsonable({"case": cases[i], "trail": [(t[1], t[2]) for t in ctx.trail][:40]})]
                except Stopped:
                    pass
                except BaseException:
                    err = traceback.format_exc()
                    err = f"case {ctx.case_index}: {jsonable(cases[ctx.case_index]) if ctx.case_index is not None else ''}\n{err}"
                data = pickle.dumps((found, err, (ctx.states, ctx.transitions, ctx.traces, ctx.executions,
                                     ctx.choice_points, ctx.max_depth, ctx.outcomes, ctx.samples, ctx.known_hit)))
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                ok = 3
            finally:
                os._exit(ok)
        os.close(wr)
        pipes.append(r)
        pids.append(pid)
    total = Ctx(tier, known)
    found, errors = [], []
    for r, pid in zip(pipes, pids):
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            errors.append(f"worker died with status {status}")
            continue
        fnd, err, cov = pickle.loads(data)
        found += fnd
        if err:
            errors.append(err)
        merge(total, cov)
    found.sort(key=lambda rec: rec["case_index"])
    wall = time.perf_counter() - t0
    total.samples.sort(key=lambda s: repr(s))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(total.states),
            "transitions": total.transitions,
            "traces_validated_against_impl": total.traces,
            "samples": total.samples[:6],
            "exhaustive": not found and not errors,
            "cases": len(cases),
            "executions": total.executions,
            "choice_points": total.choice_points,
            "max_choice_depth": total.max_depth,
            "outcomes": dict(sorted(total.outcomes.items())),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": len(found),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{prop}.json")
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, path)
    for key, msg in sorted(total.known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {known.get(key) or msg}")
    if found:
        rec = found[0]
        os.makedirs(REPLAYS, exist_ok=True)
        rpath = os.path.join(REPLAYS, f"{prop}.json")
        rec.update(property=prop, tier=tier, seed=seed, case=jsonable(cases[rec["case_index"]]))
        with open(rpath, "w") as f:
            json.dump(rec, f, indent=1)
        again = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), prop, "--replay", rpath],
                               capture_output=True, text=True, timeout=600)
        rec["reproduced_in_fresh_process"] = again.returncode == 1
        if again.returncode != 1:
            rec["note"] = ("depends on what ran earlier in the same process (leaked state); "
                           "re-run the whole check to reproduce")
        with open(rpath, "w") as f:
            json.dump(rec, f, indent=1)
        print(f"{prop}: {rec['message']}")
        print(json.dumps(rec.get("detail"), default=repr)[:3000])
        print(f"VIOLATION property={prop} replay={rpath}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    print(f"{prop} ok: tier={tier} cases={len(cases)} traces={total.traces} states={len(total.states)} "
          f"transitions={total.transitions} choice_points={total.choice_points} wall={wall:.1f}s")
    return 0


def replay(mod, path):
    rec = json.load(open(path))
    cases = list(mod.cases(rec["tier"]))
    i = rec["case_index"]
    if jsonable(cases[i]) != rec["case"]:
        print("replay file does not match the current case list", file=sys.stderr)
        return 2
    ctx = Ctx(rec["tier"], load_known(mod.ID))
    run = isolated if getattr(mod, "ISOLATE", False) else run_one
    if rec["choices"] and run is run_one:
        # follow exactly the recorded choices, no exploration
        ctx.prefix = [tuple(c) for c in rec["choices"]]
        try:
            mod.run_case(ctx, cases[i])
            out = None
        except Violation as v:
            out = {"message": v.message, "detail": jsonable(v.detail)}
        except Divergence:
            raise
        except BaseException as e:
            out = {"message": f"unexpected {type(e).__name__}: {e}", "detail": traceback.format_exc()[-3000:]}
    else:
        out = run(mod, ctx, cases[i], getattr(mod, "LIMIT", 300))
    if out:
        print(f"reproduced: {out['message']}")
        print(json.dumps(jsonable(out.get("detail")), indent=1)[:4000])
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    print("not reproduced")
    return 0
