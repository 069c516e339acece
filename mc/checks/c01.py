"""C01: an authorization code yields tokens at most once."""
import asyncio
import itertools

from mc import clock, consts
from mc.loop import run_tasks
from mc.checks.c10 import EXCS
from mc.world import REQ, World, basic, error_of, granted, labelled, make_request
from psion.oidc import AuthorizationCodeFlow

ID = "C01"
ASSUMPTIONS = [
    "all requests of one code go through one provider object (the storage adapter has no compare-and-delete)",
    "tasks interleave at storage calls: the event loop switches tasks only at awaits, and the endpoints await only storage",
    "a storage failure or a cancellation of the deletion itself may leave the code redeemable",
]
BOUNDS = {
    "quick": "2 concurrent requests (8 kinds, all pairs with a right one): every interleaving with a switch before each "
             "storage call, <=2 preemptions with switches before and after; 3 requests <=2 preemptions; sequences <=3; "
             "one storage fault (7 exception types) or one cancellation of the request at every call; concurrent pairs with one cancellation; "
             "pairs (<=1 preemption) while 1 to 257 redemptions of other codes are held open at a storage call",
    "thorough": "as quick plus <=4 preemptions around calls, 3 requests <=4 preemptions, sequences <=5, two faults, "
                "concurrent pairs with one fault",
}

# R right request, W wrong verifier, M missing verifier, U other redirect URI, O other client, Q parameters in the
# query, A wrong client secret, P client without the grant
KINDS = "RWMUOQAP"
CONSUMES = set("RWMUOQ")  # authenticated client that is allowed the grant


def request(w, kind, code):
    form = w.code_form(code, "cb")
    if kind == "W":
        form["code_verifier"] = form["code_verifier"][:-1] + "x"
    elif kind == "M":
        del form["code_verifier"]
    elif kind == "U":
        form["redirect_uri"] = "https://cb.example/alt"
    elif kind == "O":
        return w.token_request(form, "cp")
    elif kind == "Q":
        return make_request("POST", "/token", query=form, headers={"Authorization": basic("cb", "secret-b")})
    elif kind == "A":
        return make_request("POST", "/token", form=form, headers={"Authorization": basic("cb", "nope")})
    elif kind == "P":
        return w.token_request(form, "np")
    return w.token_request(form, "cb")


def attempt(w, req, label):
    try:
        return w.send("token", req, label)
    except (Exception, asyncio.CancelledError):  # whether the endpoint may raise is C10
        return None


def build(ctx, variant):
    clock.set_now(clock.BASE)
    hooks = [("authorization_code", AuthorizationCodeFlow)] if "oidc" in variant else []
    w = World(ctx, hooks=hooks, shared="shared" in variant)
    if "norefresh" in variant:
        w.clients["cb"].grants = ["authorization_code"]
    np = w.clients["np"] = type(w.clients["cb"])("np", "secret-n", "client_secret_basic", ["https://cb.example/cb"],
                                                ["client_credentials"], ["code"], ["profile"])
    assert np
    code = w.issue_code("cb", scope="openid profile" if "oidc" in variant else "profile")
    return w, code


def cases(tier):
    out = []
    deep = tier == "thorough"
    for variant in ("", "oidc", "norefresh", "shared"):
        for n in range(1, (5 if deep and not variant else 4 if deep else 3) + 1):
            if n > 2 and variant and not deep:
                continue
            for seq in itertools.product(KINDS, repeat=n):
                out.append(["seq", variant, "".join(seq)])
    for variant in ("", "oidc"):
        for k in KINDS:
            out.append(["fault", variant, k])
            out.append(["cancel", variant, k])
            if k in "RWO":
                out.append(["paircancel", variant, "before", "R" + k])
    for variant in ("", "oidc"):
        for k in KINDS:
            out.append(["pair", variant, "before", "R" + k])
            out.append(["pair", variant, "both", "R" + k])
    for k in "RWMOQ":
        out.append(["pair", "norefresh", "before", "R" + k])
    triples = ["RRR", "RRW", "RWM", "RRO"] + (["RQU", "WMR", "RRA", "OOR"] if deep else [])
    for t in triples:
        out.append(["pair", "", "before", t])
    if deep:
        for k in "RWMO":
            out.append(["pairfault", "", "before", "R" + k])
    for n in (1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 130, 256, 257, *consts.around(1500)) + ((512, 1000, 1025) if deep else ()):
        for gate in ("get_authorization_code", "create_access_token", "delete_authorization_code"):
            out.append(["crowd", "", n, gate])
            out.append(["between", "", n, gate])
    return out


def bound(tier, case):
    deep = tier == "thorough"
    if case[0] == "fault":
        return 2 if deep else 1
    if case[0] == "cancel":
        return 1
    if case[0] == "between":
        return 0
    if case[0] == "crowd":
        return 1 if case[2] <= 130 else 0
    if case[0] in ("pairfault", "paircancel"):
        return 3 if deep and case[0] == "paircancel" else 2
    if case[0] == "pair":
        if len(case[3]) == 3:
            return 4 if deep else 2
        return None if case[2] == "before" else (4 if deep else 2)
    return None


def run_case(ctx, case):
    mode, variant = case[0], case[1]
    w, code = build(ctx, variant)
    if mode == "seq":
        spent = False
        for i, kind in enumerate(case[2]):
            resp = attempt(w, request(w, kind, code), f"r{i}")
            ok = granted(resp)
            ctx.check(not (ok and spent), f"the code was redeemed again by request {i} of {case[2]}",
                      answers=case[2])
            spent = spent or (resp is not None and kind in CONSUMES)
            ctx.state(kind, ok, w.abstract())
            ctx.outcome("granted" if ok else f"refused:{error_of(resp)}")
        return
    if mode in ("cancel", "paircancel"):
        w.fault_exc = asyncio.CancelledError
    if mode in ("fault", "pairfault"):
        w.fault_exc = EXCS
    if mode in ("fault", "cancel"):
        w.faults = True
        resp = attempt(w, request(w, case[2], code), "r0")
        w.faults = False
        first = granted(resp)
        fired = w.fault_fired
        ctx.outcome(f"fault:{fired[1] if fired else None}")
        ctx.state(case, fired, first, w.abstract())
        again = granted(attempt(w, request(w, "R", code), "r1"))
        deleting = any(t[1] == "fault:delete_authorization_code" and t[2] for t in ctx.trail)
        authenticating = any(t[1] == "fault:find_client" and t[2] for t in ctx.trail)
        if not deleting:
            ctx.check(not (first and again), "the code was redeemed twice", fault=fired)
        if resp is not None and case[2] in CONSUMES and not deleting and not authenticating:
            ctx.check(not again, "an answered request left the code redeemable", fault=fired)
        if mode == "cancel" and not deleting and case[2] in CONSUMES and any(e[0] == "r0" and e[1] == "get_authorization_code" for e in w.log):
            ctx.check(not again, "a request that was cancelled after it had read the code left it redeemable", fault=fired)
        made = [t for t in w.issued if t["kind"] == "at"]
        ctx.check(deleting or len(made) <= 1, "access tokens were created twice for one code", fault=fired, issued=w.issued)
        return
    if mode == "between":
        return between(ctx, w, code, case[2], case[3])
    if mode == "crowd":
        return crowd(ctx, w, code, case[2], case[3])
    kinds = case[3]
    w.yields = case[2]
    w.faults = mode in ("pairfault", "paircancel")
    w.fault_kinds = 1 if mode == "pairfault" else 2
    order = []

    def task(i, kind):
        req = request(w, kind, code)

        async def go():
            order.append(("start", i))
            resp = await w.provider.token(req)
            if resp is not None:
                order.append(("end", i))
            return resp

        return lambda: labelled(f"r{i}", go())

    results, schedule = run_tasks(ctx, [task(i, k) for i, k in enumerate(kinds)])
    w.yields, w.faults = None, False
    results = [r[1] if r[0] == "ok" else None for r in results]
    oks = [granted(r) for r in results]
    ctx.check(sum(oks) <= 1, f"{sum(oks)} concurrent requests were granted tokens for one code", schedule=schedule,
              kinds=kinds)
    done = False
    for what, i in order:
        if what == "start":
            ctx.check(not (done and oks[i]), "a request started after another was answered was granted",
                      schedule=schedule, order=order)
        elif kinds[i] in CONSUMES and not w.fault_fired:
            done = True
    ctx.state(kinds, tuple(oks), tuple(error_of(r) for r in results), w.abstract(), tuple(schedule))
    ctx.outcome("granted:%s" % "".join(k if o else "-" for k, o in zip(kinds, oks)))
    again = granted(attempt(w, request(w, "R", code), "later"))
    deleting = any(t[1] == "fault:delete_authorization_code" and t[2] for t in ctx.trail)
    ctx.check(deleting or sum(t["kind"] == "at" for t in w.issued) <= 1, "access tokens were created twice for one code",
              schedule=schedule, issued=w.issued)
    if w.fault_fired:
        ctx.check(not (any(oks) and again) or deleting, "the code was redeemed twice", schedule=schedule)
    elif done:
        ctx.check(not again, "the code was redeemable after both requests were answered", schedule=schedule)


def between(ctx, w, code, n, gate):
    """One request is held at the storage call `gate`; n redemptions of other codes start (and are held too, or finish); then a second request comes."""
    for others_held in (True, False):
        w, code = build(ctx, "")
        others = [f"other-code-{i}" for i in range(n)]
        for c in others:
            w.codes[c] = dict(w.codes[code])
        plain = w.call
        state = {}

        async def call(name, args, effect):
            if name == gate and (REQ.get() == "r0" or others_held and REQ.get().startswith("other")):
                await asyncio.shield(state["open"])
            return await plain(name, args, effect)

        w.call = call

        async def go():
            loop = asyncio.get_running_loop()
            state["open"] = loop.create_future()
            tasks = [loop.create_task(labelled("r0", w.provider.token(request(w, "R", code))))]
            await asyncio.sleep(0)
            for c in others:
                tasks.append(loop.create_task(labelled(c, w.provider.token(request(w, "R", c)))))
            for _ in range(3):
                await asyncio.sleep(0)
            second = loop.create_task(labelled("r1", w.provider.token(request(w, "R", code))))
            for _ in range(3):
                await asyncio.sleep(0)
            state["open"].set_result(None)
            await asyncio.wait(tasks + [second])
            return [tasks[0].result(), second.result()]

        results, schedule = run_tasks(ctx, [lambda: labelled("main", go())])
        w.call = plain
        ctx.trace()
        oks = [granted(r) for r in results[0][1]]
        info = dict(others=n, others_held=others_held, held_at=gate)
        ctx.check(sum(oks) <= 1, "two requests were granted tokens for one code while others came in between", **info)
        for c in (["r0", "r1"], *([c] for c in others)):
            ctx.check(sum(e["request"] in c and e["kind"] == "at" for e in w.issued) <= 1, "access tokens were created twice for one code", code=c, **info)
        for c in [code] + others[:3] + others[-1:]:
            ctx.check(not granted(attempt(w, request(w, "R", c), "later")), "a redeemed code was accepted again", code=c, **info)
        ctx.state("between", n, gate, others_held, oks)
        ctx.outcome("between")


def crowd(ctx, w, code, n, gate):
    """n redemptions of other codes are in progress, each held at the storage call `gate`, while two requests present one code."""
    others = []
    for i in range(n):
        others.append(f"other-code-{i}")
        w.codes[others[-1]] = dict(w.codes[code])
    w.yields = "before"
    state = {"open": None, "left": 2}
    plain = w.call

    async def call(name, args, effect):
        if name == gate and REQ.get().startswith("other"):
            await asyncio.shield(state["open"])
        return await plain(name, args, effect)

    w.call = call
    background = []

    def task(i):
        async def go():
            if state["open"] is None:
                loop = asyncio.get_running_loop()
                state["open"] = loop.create_future()
                for c in others:
                    background.append(loop.create_task(labelled(c, w.provider.token(request(w, "R", c)))))
                await asyncio.sleep(0)
            resp = await w.provider.token(request(w, "R", code))
            state["left"] -= 1
            if not state["left"]:
                state["open"].set_result(None)
                if background:
                    await asyncio.wait(background)
            return resp

        return lambda: labelled(f"r{i}", go())

    results, schedule = run_tasks(ctx, [task(0), task(1)])
    w.yields, w.call = None, plain
    oks = [granted(r[1]) if r[0] == "ok" else False for r in results]
    ctx.check(sum(oks) <= 1, "two requests were granted tokens for one code while others were in progress", others=n, held_at=gate, schedule=schedule)
    for c, t in zip(others, background):
        ctx.check(sum(e["request"] == c and e["kind"] == "at" for e in w.issued) <= 1, "access tokens were created twice for one code", code=c)
        assert t.done()
    for c in [code] + others[:3] + others[-1:]:
        ctx.check(not granted(attempt(w, request(w, "R", c), "later")), "a redeemed code was accepted again", code=c, others=n)
    ctx.state("crowd", n, gate, schedule, oks)
    ctx.outcome("crowd")
