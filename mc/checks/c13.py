"""C13: concurrent requests do not influence each other."""
import asyncio
import itertools
import math

from mc import clock, consts
from mc.loop import run_tasks
from mc.util import effects
from mc.world import CHALLENGE, REQ, VERIFIER, Client, StorageFailure, User, World, basic, labelled, make_request, query_of, location
from psion.oidc import AuthorizationCodeFlow

ID = "C13"
ISOLATE = True
ASSUMPTIONS = ["the event loop switches tasks only at awaits; the endpoints await only storage calls",
               "requests share no code, token or user; they may share the client (variant)",
               "random authorization codes are compared by the records stored under them"]
FLOWS = ["auth", "auth-oidc", "auth-denied", "auth-scope", "auth-fatal", "auth-resp", "consent", "code", "code-oidc", "code-missing",
         "code-bad", "cc", "refresh", "refresh-scope", "badauth", "revoke", "revoke-bad"]
BOUNDS = {
    "quick": "17 flows; all ordered pairs under every interleaving when there are <=3000, else <=2 preemptions; distinct and "
             "shared clients; all sequences of 2 flows, all sequences of 3 over 9 flows, on one provider; triples of 6 flows "
             "with <=1 preemption; a second flow after one that fails or is cancelled at any storage call, and (9 flows) concurrently with it at "
             "<=1 preemption; every flow while, and after, 1 to 257 other requests are in progress or were handled",
    "thorough": "pairs: every interleaving up to 200000, else <=4 preemptions; all sequences of 3 flows; triples <=2 preemptions",
}
NAMES = ["alpha", "bravo", "charlie"]
STEPS = {"auth": 3, "auth-oidc": 3, "auth-denied": 2, "auth-scope": 2, "auth-fatal": 2, "auth-resp": 2, "consent": 2, "code": 7,
         "code-oidc": 10, "code-missing": 2, "code-bad": 4, "cc": 3, "refresh": 6, "refresh-scope": 3, "badauth": 2, "revoke": 3,
         "revoke-bad": 2}


def cases(tier):
    out = []
    deep = tier == "thorough"
    for a, b in itertools.product(FLOWS, repeat=2):
        for variant in ("", "sameclient", "shared"):
            if FLOWS.index(a) <= FLOWS.index(b):
                out.append(["pair", [a, b], variant])
            out.append(["seq", [a, b], variant])
    short = FLOWS if deep else ["auth-oidc", "auth-denied", "auth-scope", "code-oidc", "code-missing", "cc", "refresh", "badauth", "revoke"]
    for t in itertools.product(short, repeat=3):
        for variant in (("", "sameclient", "shared") if deep else ("shared",)):
            out.append(["seq", list(t), variant])
    for t in itertools.combinations_with_replacement(["auth-oidc", "auth-scope", "code-oidc", "cc", "refresh", "badauth"], 3):
        out.append(["pair", list(t), ""])
    for a, b in itertools.product(FLOWS, repeat=2):
        for exc in ("fail", "cancel"):
            out.append(["faultseq", [a, b], exc])
            if b in FAULT_FLOWS and a in FAULT_FLOWS:
                out.append(["faultpair", [a, b], exc])
    for f in FLOWS:
        for n in CROWDS + ((512, 1000, 1025) if deep else ()):
            out.append(["crowd", [f], n])
            if n <= 300 or deep:
                out.append(["many", [f], n])
    return out


CROWDS = (1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, *consts.around(1500))
FAULT_FLOWS = ["auth-oidc", "auth-scope", "code", "code-oidc", "code-bad", "cc", "refresh", "badauth", "revoke"]
CROWD_FLOWS = ["code", "refresh", "auth-oidc", "code-oidc", "cc", "badauth", "code-bad", "revoke", "auth-scope", "auth-denied", "refresh-scope"]


def bound(tier, case):
    if case[0] in ("seq", "crowd", "many"):
        return None
    if case[0] == "faultseq":
        return 1
    if case[0] == "faultpair":
        return 3 if tier == "thorough" else 2
    deep = tier == "thorough"
    if len(case[1]) == 3:
        return 2 if deep else 1
    a, b = (STEPS[f] for f in case[1])
    n = math.comb(a + b, a)
    if n <= (200000 if deep else 3000):
        return None
    return 4 if deep else 2


def build(ctx, variant):
    clock.set_now(clock.BASE)
    clients, users = {}, []
    for i, n in enumerate(NAMES):
        users.append("user-" + n)
        method = ["client_secret_basic", "client_secret_post", "none"][0 if variant == "sameclient" else i]
        clients["client-" + n] = Client("client-" + n, "secret-" + n if method != "none" else None, method,
                                        [f"https://{n}.example/cb"], ["authorization_code", "client_credentials", "refresh_token"],
                                        ["code"], ["openid", "profile", "email"])
    if variant == "sameclient":
        one = clients["client-alpha"]
        one.uris = [f"https://{n}.example/cb" for n in NAMES]
        clients = {"client-alpha": one}
    w = World(ctx, clients=clients, users=users, hooks=[("authorization_code", AuthorizationCodeFlow)], shared=variant == "shared")
    w.label_tokens = True
    for i, n in enumerate(NAMES):
        c = "client-alpha" if variant == "sameclient" else "client-" + n
        for kind, scopes in (("plain", ["profile"] if i % 2 else ["email"]), ("oidc", ["openid", "profile"] + (["email"] if i else []))):
            w.codes[f"code-{kind}-{n}"] = {"client": c, "user": "user-" + n, "redirect_uri": f"https://{n}.example/cb", "scopes": scopes,
                                           "challenge": CHALLENGE, "method": "S256", "nonce": "nonce-" + n, "auth_time": 0,
                                           "expires": clock.NOW + 600}
        w.refresh["rt-" + n] = {"token": "rt-" + n, "client": c, "user": "user-" + n, "scopes": ["profile", "email"],
                                "expires": clock.NOW + 600}
    return w


def make(w, flow, i, variant, which=""):
    """(endpoint, request) of flow `flow` for participant i."""
    n = NAMES[i]
    c = "client-alpha" if variant == "sameclient" else "client-" + n
    uri = f"https://{n}.example/cb"
    user = User("user-" + n)
    kind, _, sub = flow.partition("-")
    if kind in ("auth", "consent"):
        p = {"client_id": c, "redirect_uri": uri, "response_type": "code", "code_challenge": CHALLENGE, "code_challenge_method": "S256",
             "scope": "profile" if i % 2 else "email", "state": "state-" + n}
        if sub == "oidc":
            p.update(scope="openid profile", nonce="nonce-" + n)
        elif sub == "scope":
            p["scope"] = "bad-" + n
        elif sub == "denied":
            user = None
        elif sub == "fatal":
            p["redirect_uri"] = f"https://{n}.example/evil"
        elif sub == "resp":
            p["response_type"] = "token-" + n
        return ("consent" if kind == "consent" else "authorize"), make_request("GET", "/authorize", query=p, user=user)
    if kind == "code":
        form = {"grant_type": "authorization_code", "code": f"code-{'oidc' if sub == 'oidc' else 'plain'}-{n}{which}", "redirect_uri": uri,
                "code_verifier": VERIFIER}
        if sub == "missing":
            del form["code"]
        elif sub == "bad":
            form["code_verifier"] = "wrong-" + n
    elif kind == "cc":
        form = {"grant_type": "client_credentials", "scope": "profile" if i % 2 else "email profile"}
    elif kind == "refresh":
        form = {"grant_type": "refresh_token", "refresh_token": "rt-" + n + which, "scope": "profile" if sub != "scope" else "openid"}
    elif kind == "badauth":
        form = {"grant_type": "authorization_code", "code": "code-plain-" + n + which}
        return "token", make_request("POST", "/token", form=form, headers={"Authorization": basic(c, "wrong-" + n)})
    else:
        form = {"token": "rt-" + n + which, "token_type_hint": "bogus-" + n if sub == "bad" else "refresh_token"}
        return "revoke", w.token_request(form, c, "/revoke")
    return "token", w.token_request(form, c)


def endpoint(w, name):
    return w.provider.authorize.get_consent_data if name == "consent" else getattr(w.provider, name)


def observe(w, resp):
    """Response in comparable form; the random code is replaced by the record stored under it."""
    if isinstance(resp, BaseException):
        return ("raised", type(resp).__name__)
    if isinstance(resp, dict):
        return ("dict", resp["client"].get_client_id(), tuple(map(str, resp["scopes"])))
    if resp is None:
        return None
    loc = location(resp)
    headers = {k: v for k, v in resp.headers.items() if k.lower() != "location"}
    code = query_of(loc).get("code") if loc else None
    rec = w.codes.get(code) if code else None
    return (resp.status_code, tuple(sorted(headers.items())), resp.body,
            loc and (loc.replace(code, "<code>") if code else loc), rec and tuple(sorted((k, str(v)) for k, v in rec.items())))


def own_effects(w, label):
    out = []
    for req, name, args in w.log:
        if req == label:
            e = (name, args)
            if name == "save_authorization_code":
                e = (name, ("<code>",) + tuple(args[1:]))
            out.append(e)
    return [e for e in out if e[0] in EFFECT_NAMES]


EFFECT_NAMES = {"save_authorization_code", "delete_authorization_code", "create_access_token", "create_refresh_token", "revoke_token"}
_ALONE = {}


def alone(flow, i, variant):
    key = (flow, i, variant)
    if key not in _ALONE:
        w = build(None, variant)
        ep, req = make(w, flow, i, variant)
        (out,), _ = run_tasks(None, [lambda: labelled(f"r{i}", endpoint(w, ep)(req))])
        _ALONE[key] = (observe(w, out[1]), own_effects(w, f"r{i}"))
    return _ALONE[key]


def run_fault(ctx, mode, flows, exc):
    """The first request suffers a storage failure or is cancelled at some call: the second is handled as alone."""
    want = alone(flows[1], 1, "")
    w = build(ctx, "")
    todo = [make(w, f, i, "") for i, f in enumerate(flows)]
    w.fault_label = "r0"
    w.fault_exc = asyncio.CancelledError if exc == "cancel" else StorageFailure
    w.faults = True
    jobs = [lambda i=i, ep=ep, req=req: labelled(f"r{i}", endpoint(w, ep)(req)) for i, (ep, req) in enumerate(todo)]
    if mode == "faultseq":
        run_tasks(ctx, jobs[:1])
        w.faults = False
        results, schedule = run_tasks(None, jobs[1:])
    else:
        w.yields = "before"
        results, schedule = run_tasks(ctx, jobs)
        w.yields, w.faults = None, False
    got = observe(w, results[-1][1])
    ctx.check(got == want[0], f"{flows[1]} is answered differently because {flows[0]} failed", fault=w.fault_fired, got=got, alone=want[0], schedule=schedule)
    eff = own_effects(w, "r1")
    ctx.check(eff == want[1], f"{flows[1]} has other effects because {flows[0]} failed", fault=w.fault_fired, got=eff, alone=want[1], schedule=schedule)
    ctx.state(mode, flows, exc, w.fault_fired, schedule)
    ctx.outcome(mode)


def crowd_world(ctx, n):
    """The world of the pairs, with n codes and tokens for other requests of the second and third participant."""
    w = build(ctx, "")
    for k in range(n):
        for name in NAMES[1:]:
            for kind in ("plain", "oidc"):
                w.codes[f"code-{kind}-{name}-{k}"] = dict(w.codes[f"code-{kind}-{name}"])
            w.refresh[f"rt-{name}-{k}"] = dict(w.refresh["rt-" + name], token=f"rt-{name}-{k}")
    return w


def crowd_make(w, k):
    return make(w, CROWD_FLOWS[k % len(CROWD_FLOWS)], 1 + k % 2, "", f"-{k}")


def run_crowd(ctx, flow, n):
    """n other requests are in progress, each held at one of its storage calls."""
    for depth in (1, 2, 3, 4, 5):
        w = crowd_world(ctx, n)
        count, plain, background, gate = {}, w.call, [], []
        ep, req = make(w, flow, 0, "")

        async def call(name, args, effect):
            label = REQ.get()
            if label.startswith("c"):
                count[label] = count.get(label, 0) + 1
                if count[label] == depth:
                    await asyncio.shield(gate[0])
            return await plain(name, args, effect)

        async def go():
            loop = asyncio.get_running_loop()
            gate.append(loop.create_future())
            for k in range(n):
                e, r = crowd_make(w, k)
                background.append(loop.create_task(labelled(f"c{k}", endpoint(w, e)(r))))
            await asyncio.sleep(0)
            try:
                return await endpoint(w, ep)(req)
            finally:
                gate[0].set_result(None)
                await asyncio.wait(background)

        w.call = call
        (out,), _ = run_tasks(ctx, [lambda: labelled("r0", go())])
        same_as_alone(ctx, w, flow, out[1], "while other requests were in progress", others=n, held_at=depth)
    ctx.state("crowd", flow, n)
    ctx.outcome("crowd")


def run_many(ctx, flow, n):
    w = crowd_world(ctx, n)
    for k in range(n):
        e, r = crowd_make(w, k)
        run_tasks(None, [lambda: labelled(f"c{k}", endpoint(w, e)(r))])
    ep, req = make(w, flow, 0, "")
    (out,), _ = run_tasks(None, [lambda: labelled("r0", endpoint(w, ep)(req))])
    same_as_alone(ctx, w, flow, out[1], "after other requests", others=n)
    ctx.state("many", flow, n)
    ctx.outcome("many")


def same_as_alone(ctx, w, flow, resp, when, **info):
    want = alone(flow, 0, "")
    got, eff = observe(w, resp), own_effects(w, "r0")
    ctx.check(got == want[0], f"{flow} is answered differently {when}", got=got, alone=want[0], **info)
    ctx.check(eff == want[1], f"{flow} has other effects {when}", got=eff, alone=want[1], **info)


def run_case(ctx, case):
    mode, flows, variant = case
    if mode.startswith("fault"):
        return run_fault(ctx, mode, flows, variant)
    if mode == "crowd":
        return run_crowd(ctx, flows[0], variant)
    if mode == "many":
        return run_many(ctx, flows[0], variant)
    expect = [alone(f, i, variant) for i, f in enumerate(flows)]
    w = build(ctx, variant)
    todo = [make(w, f, i, variant) for i, f in enumerate(flows)]
    if mode == "pair":
        w.yields = "before"
        results, schedule = run_tasks(ctx, [lambda i=i, ep=ep, req=req: labelled(f"r{i}", endpoint(w, ep)(req))
                                            for i, (ep, req) in enumerate(todo)])
        w.yields = None
    else:
        schedule, results = "one after another", []
        for i, (ep, req) in enumerate(todo):
            (out,), _ = run_tasks(None, [lambda: labelled(f"r{i}", endpoint(w, ep)(req))])
            results.append(out)
    for i, (kind, value) in enumerate(results):
        got, want = observe(w, value), expect[i][0]
        ctx.check(got == want, f"the response of {flows[i]} differs from its response alone", flows=flows, index=i, got=got, alone=want,
                  schedule=schedule)
        eff = own_effects(w, f"r{i}")
        ctx.check(eff == expect[i][1], f"the storage effects of {flows[i]} differ from its effects alone", flows=flows, index=i, got=eff,
                  alone=expect[i][1], schedule=schedule)
        for j, n in enumerate(NAMES[:len(flows)]):
            if j == i:
                continue
            for req, name, args in w.log:
                if req == f"r{i}":
                    text = repr(args).replace("client-alpha", "") if variant == "sameclient" else repr(args)
                    ctx.check(n not in text, f"{flows[i]} handled a value of another request", call=name, args=repr(args), flows=flows,
                              schedule=schedule)
    ctx.state(mode, variant, tuple(flows), tuple(schedule) if mode == "pair" else (), tuple(map(str, w.abstract())))
    ctx.outcome(mode)
    assert effects and REQ
