"""C36: providers in one process are independent of each other."""
import itertools
import os
import pickle

from mc import clock
from mc.checks import c13
from mc.loop import run_tasks
from mc.world import CHALLENGE, Client, World, labelled, oct_keyset
from psion.oidc import AuthorizationCodeFlow

ID = "C36"
ISOLATE = True
ASSUMPTIONS = ["each provider has its own adapter class and its own settings, as the constructor takes them",
               "the event loop switches tasks only at awaits; the endpoints await only storage calls",
               "random authorization codes are compared by the records stored under them"]
FLOWS = c13.FLOWS
LATE = ["auth-oidc", "auth-scope", "code-oidc", "code", "cc", "refresh", "badauth", "revoke"]
BOUNDS = {
    "quick": "4 configurations (issuer, error page, scopes, grants, keys, lifetimes, hooks, registrations; same client IDs, codes and tokens in all): every "
             "ordered pair of providers x all sequences of 2 of 17 flows on either; create - flow - create - flow - flow with 8 flows at each place; "
             "all pairs of flows running concurrently on two providers with <=2 preemptions; three providers, one flow on each in every order",
    "thorough": "sequences of 3 flows over 8 flows, concurrent pairs over 4 pairs of configurations with every interleaving up to 3000, else <=3 preemptions",
}
CONFIGS = [
    dict(scopes=["openid", "profile", "email"], lifespan=100, id_lifespan=1000, method="client_secret_basic", hooks=True, grants=None,
         allowed=["openid", "profile", "email"], grant_types=["authorization_code", "client_credentials", "refresh_token"]),
    dict(scopes=["openid", "profile", "email", "bad-alpha", "bad-bravo", "bad-charlie"], lifespan=200, id_lifespan=2000, method="client_secret_post", hooks=True, grants=None,
         allowed=["openid", "profile", "email", "bad-alpha", "bad-bravo", "bad-charlie"], grant_types=["authorization_code", "client_credentials"]),
    dict(scopes=["openid", "profile", "email"], lifespan=300, id_lifespan=3000, method="none", hooks=False, grants=None,
         allowed=["openid", "profile", "email"], grant_types=["authorization_code", "client_credentials", "refresh_token"]),
    dict(scopes=["profile", "openid", "email"], lifespan=400, id_lifespan=4000, method="client_secret_basic", hooks=True,
         grants=["client_credentials", "authorization_code"], allowed=["openid", "profile"], grant_types=["client_credentials", "authorization_code"]),
]
_KEYS = {}


def build(k, ctx=None):
    c = CONFIGS[k]
    clients, users = {}, []
    for n in c13.NAMES:
        users.append("user-" + n)
        clients["client-" + n] = Client("client-" + n, f"secret-{k}-{n}" if c["method"] != "none" else None, c["method"], [f"https://{n}.example/cb"],
                                        c["grant_types"], ["code"], c["allowed"])
    if k not in _KEYS:
        _KEYS[k] = oct_keyset(f"key-{k}")
    w = World(ctx, clients=clients, users=users, hooks=[("authorization_code", AuthorizationCodeFlow)] if c["hooks"] else [], scopes=c["scopes"],
              grants=c["grants"], issuer=f"https://as{k}.example", error_url=f"https://as{k}.example/error", lifespan=c["lifespan"],
              id_lifespan=c["id_lifespan"], keyset=_KEYS[k], key_info={"key": _KEYS[k].get_key(f"key-{k}"), "alg": "HS256"})
    w.userinfo = {"home": f"as{k}"}
    w.label_tokens = True
    for i, n in enumerate(c13.NAMES):
        for kind, scopes in (("plain", ["profile"] if (i + k) % 2 else ["email"]), ("oidc", ["openid", "profile"])):
            w.codes[f"code-{kind}-{n}"] = {"client": "client-" + n, "user": "user-" + n, "redirect_uri": f"https://{n}.example/cb", "scopes": scopes,
                                           "challenge": CHALLENGE, "method": "S256", "nonce": f"nonce-{k}-{n}", "auth_time": 0, "expires": clock.NOW + 600 + k}
        w.refresh["rt-" + n] = {"token": "rt-" + n, "client": "client-" + n, "user": "user-" + n, "scopes": ["profile", "email"] if k != 3 else ["profile"],
                                "expires": clock.NOW + 600}
    return w


def start(w, k, flow, i):
    ep, req = c13.make(w, flow, i, "")
    return lambda: labelled(f"p{k}-{i}", c13.endpoint(w, ep)(req))


def result(w, k, i, out, since=0):
    kind, v = out
    calls = [(name, ("<code>",) + tuple(args[1:]) if name == "save_authorization_code" else args)
             for req, name, args in w.log[since:] if req == f"p{k}-{i}" and name in c13.EFFECT_NAMES]
    return kind, c13.observe(w, v), calls


def alone(k, flow, i):
    clock.set_now(clock.BASE)
    w = build(k)
    (out,), _ = run_tasks(None, [start(w, k, flow, i)])
    return result(w, k, i, out)


_ALONE = {}


def learn():
    """What every flow does when its provider is the only one of the process: each in a process of its own."""
    for k in range(len(CONFIGS)):
        for flow in FLOWS:
            for i in range(3):
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        try:
                            got = alone(k, flow, i)
                        except BaseException as exc:
                            got = ("failed", repr(exc), [])
                        with os.fdopen(w, "wb") as f:
                            f.write(pickle.dumps(got))
                    finally:
                        os._exit(0)
                os.close(w)
                with os.fdopen(r, "rb") as f:
                    _ALONE[k, flow, i] = pickle.loads(f.read())
                os.waitpid(pid, 0)


def cases(tier):
    deep = tier == "thorough"
    if not _ALONE:
        learn()
    pairs = list(itertools.permutations(range(len(CONFIGS)), 2))
    out = []
    for a, b in pairs:
        for first in FLOWS:
            out.append(["seq", [a, b], first, 3 if deep and first in LATE else 2])
        for first in LATE:
            out.append(["late", [a, b], first])
    for a, b in (pairs[:4] if deep else [(0, 1), (2, 0)]):
        for f, g in itertools.product(FLOWS, repeat=2):
            out.append(["concurrent", [a, b], [f, g]])
    for t in itertools.permutations(range(len(CONFIGS)), 3):
        out.append(["three", list(t)])
    return out


def bound(tier, case):
    if case[0] != "concurrent":
        return None
    import math
    a, b = (c13.STEPS[f] for f in case[2])
    if tier == "thorough":
        return None if math.comb(a + b, a) <= 3000 else 3
    return 2


def check(ctx, w, k, flow, i, out, since, **info):
    got, want = result(w, k, i, out, since), tuple(_ALONE[k, flow, i])
    ctx.check(got[1] == want[1], f"{flow} on provider {k} is answered differently next to another provider", got=got[1], alone=want[1], **info)
    ctx.check(got[2] == want[2], f"{flow} on provider {k} has other effects next to another provider", got=got[2], alone=want[2], **info)


class Play:
    """A history over several providers."""

    def __init__(self, ctx):
        clock.set_now(clock.BASE)
        self.ctx, self.worlds, self.used, self.events = ctx, {}, {}, []

    def create(self, k):
        self.worlds[k] = build(k)
        self.used[k] = 0
        self.events.append(("create", k))

    def flow(self, k, flow):
        w, i = self.worlds[k], self.used[k]
        self.used[k] += 1
        self.events.append((flow, k))
        lens = {j: len(x.log) for j, x in self.worlds.items()}
        (out,), _ = run_tasks(None, [start(w, k, flow, i)])
        self.ctx.step()
        check(self.ctx, w, k, flow, i, out, lens[k], events=self.events)
        for j, x in self.worlds.items():
            self.ctx.check(j == k or len(x.log) == lens[j], f"{flow} on provider {k} used the storage of provider {j}", events=self.events)

    def done(self):
        self.ctx.trace()
        self.ctx.state(self.events)


def run_case(ctx, case):
    kind = case[0]
    if kind == "seq":
        _, (a, b), first, depth = case
        menu = [(k, f) for k in (a, b) for f in (FLOWS if depth == 2 else LATE)]
        for who in (a, b):
            for rest in itertools.product(menu, repeat=depth - 1):
                p = Play(ctx)
                p.create(a)
                p.create(b)
                for k, f in ((who, first), *rest):
                    p.flow(k, f)
                p.done()
    elif kind == "late":
        _, (a, b), first = case
        for second, third in itertools.product(LATE, repeat=2):
            p = Play(ctx)
            p.create(a)
            p.flow(a, first)
            p.create(b)
            p.flow(b, second)
            p.flow(a, third)
            p.done()
    elif kind == "three":
        for f in LATE:
            for order in itertools.permutations(case[1]):
                p = Play(ctx)
                for k in case[1]:
                    p.create(k)
                for k in order:
                    p.flow(k, f)
                p.done()
    else:
        _, (a, b), flows = case
        clock.set_now(clock.BASE)
        ws = [build(a, ctx), build(b, ctx)]
        for w in ws:
            w.yields = "before"
        out, schedule = run_tasks(ctx, [start(ws[n], k, flows[n], 0) for n, k in enumerate((a, b))])
        for n, k in enumerate((a, b)):
            ws[n].yields = None
            check(ctx, ws[n], k, flows[n], 0, out[n], 0, flows=flows, schedule=schedule)
        ctx.check(all(e[0] == f"p{k}-0" for n, k in enumerate((a, b)) for e in ws[n].log), "a request used the storage of the other provider", flows=flows,
                  schedule=schedule)
        ctx.state(a, b, flows, schedule)
