"""C12: hooks affect only the provider and grant they were registered on."""
import itertools

from mc import clock
from mc.util import added_pairs
from mc.world import CHALLENGE, World, body, granted, location
from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant
from psion.oidc import AuthorizationCodeFlow

ID = "C12"
ASSUMPTIONS = ["a hook class is registered at most once per provider and grant",
               "only the authorization code flow has checkpoints",
               "whether a hook of the standard grant also runs in an application's grants derived from it is not judged"]
BOUNDS = {
    "quick": "every history of <=4 events over {create a provider (<=3), add one of 5 hooks to one provider for one grant, run "
             "all flows on a provider}, each history in its own process, then all flows on every provider, what the hooks are given examined; every "
             "ordering of 2-3 grants of the authorization code family with every sequence of <=2 hooks on any of them; up to 65 hooks on one grant; hooks return falsy members and members named like the code's own parameters",
    "thorough": "histories of <=5 events; 2-4 grants, <=3 hooks",
}
CALLS = []
GIVEN = []
# members with names that the code itself might use
ODD = {"url": "u", "data": "d", "self": "s", "params": "p", "hook": "h", "name": "n", "status_code": "9"}
FALSY = {"full_zero": 0, "full_empty": "", "full_no": False, "full_list": []}


class Base:
    def __init__(self, adapter, config):
        self.adapter, self.config = adapter, config

    def note(self, checkpoint, **given):
        CALLS.append((self.tag, checkpoint, self.adapter, self.config))
        GIVEN.append((checkpoint, {k: dict(v) if isinstance(v, dict) else v for k, v in given.items()}))


class Full(Base):
    async def authorization_request(self, data):
        self.note("authorization_request", data=data)
        return {"nonce": "full"}

    async def authorization_response(self, code, data, client, user):
        self.note("authorization_response", code=code, data=data, client=client, user=user)
        return {"full_ar": "1", "full_ar_zero": "0"}

    async def token_request(self, data):
        self.note("token_request", data=data)
        return {"full_tq": "1", **FALSY}

    async def token_response(self, token, data, client, user):
        self.note("token_response", token=token, data=data, client=client, user=user)
        return {"full_tr": "1", **FALSY}


class Partial(Base):
    async def token_response(self, token, data, client, user):
        self.note("token_response", token=token, data=data, client=client, user=user)
        return {"partial_tr": "1", "expires_in": 77}


class Front(Base):
    async def authorization_request(self, data):
        self.note("authorization_request", data=data)

    async def authorization_response(self, code, data, client, user):
        self.note("authorization_response", code=code, data=data, client=client, user=user)
        return {"front_ar": "1", **ODD}


class Refresh(Full):
    """Registered for the refresh token grant; must never run in the authorization code flow."""


for _h in (Full, Partial, Front, Refresh):
    _h.tag = _h.__name__

HOOKS = {"full": (AuthorizationCodeGrant, Full), "partial": (AuthorizationCodeGrant, Partial),
         "front": (AuthorizationCodeGrant, Front), "refresh": (RefreshTokenGrant, Refresh),
         "oidc": (AuthorizationCodeGrant, AuthorizationCodeFlow), "cc": (ClientCredentialsGrant, Partial)}


class Sibling(AuthorizationCodeGrant):
    """A grant of the application that extends the authorization code grant."""
    __grant_type__ = "sibling"
    __response_type__ = "sibling"


class Cousin(AuthorizationCodeGrant):
    __grant_type__ = "cousin"
    __response_type__ = "cousin"


class Device(AuthorizationCodeGrant):
    """Same response type as the standard grant, another grant type."""
    __grant_type__ = "device"


FAMILY = {"standard": AuthorizationCodeGrant, "sibling": Sibling, "cousin": Cousin, "device": Device}
FAMILY_HOOKS = {"full": Full, "partial": Partial, "front": Front}
CHECKPOINTS = ("authorization_request", "authorization_response", "token_request", "token_response")


def histories(depth):
    def go(path, providers, added):
        yield list(path)
        if len(path) == depth:
            return
        options = []
        if providers < 3:
            options.append(["new"])
        for p in range(providers):
            for h in HOOKS:
                if (p, h) not in added:
                    options.append(["hook", p, h])
            if path and path[-1] != ["run", p]:
                options.append(["run", p])
        for o in options:
            yield from go(path + [o], providers + (o[0] == "new"), added | ({(o[1], o[2])} if o[0] == "hook" else set()))

    yield from go([["new"]], 1, frozenset())


def cases(tier):
    # every provider is exercised at the end of each history, so a trailing run adds nothing
    alls = [h for h in histories(6 if tier == "thorough" else 5) if h[-1][0] != "run"]
    n = 60
    out = [["batch", alls[i:i + n]] for i in range(0, len(alls), n)]
    # providers with several grants of the authorization code family; hooks added to the application's own ones
    adds = [(g, h) for g in FAMILY for h in FAMILY_HOOKS]
    depth = 3 if tier == "thorough" else 2
    fam = [[list(order), list(map(list, chosen))] for k in range(2, 5 if tier == "thorough" else 4) for order in itertools.permutations(FAMILY, k)
           for m in range(depth + 1) for chosen in itertools.permutations([a for a in adds if a[0] in order], m)
           if not any(("standard", h) in chosen for g, h in chosen if g != "standard")]
    n = max(1, len(fam) // 32)
    out += [["crowd", k] for k in (3, 4, 5, 6, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65)]
    return out + [["family", fam[i:i + n]] for i in range(0, len(fam), n)]


def crowd(ctx, k):
    """k different hooks on one grant: each runs exactly once at each checkpoint, and all their members are added."""
    clock.set_now(clock.BASE)
    w = World(None)
    kinds = []
    for i in range(k):
        async def authorization_response(self, code, data, client, user, i=i):
            self.note("authorization_response", code=code, data=data, client=client, user=user)
            return {f"ar{i}": str(i)}

        async def token_response(self, token, data, client, user, i=i):
            self.note("token_response", token=token, data=data, client=client, user=user)
            return {f"tr{i}": i}
        kinds.append(type(f"Hook{i}", (Base,), {"tag": str(i), "authorization_response": authorization_response, "token_response": token_response}))
        w.provider.add_hook(AuthorizationCodeGrant, kinds[-1])
    for _ in range(2):
        CALLS.clear()
        p_ = w.auth_params("cb", scope="profile", state="s")
        pairs = dict(added_pairs(location(w.send("authorize", w.auth_request(p_))), p_["redirect_uri"]) or [])
        ctx.check({n: v for n, v in pairs.items() if n not in ("code", "state")} == {f"ar{i}": str(i) for i in range(k)}, "authorization response members", got=sorted(pairs), hooks=k)
        resp = w.send("token", w.token_request(w.code_form(pairs["code"])))
        ctx.check(granted(resp), "refused", body=repr(resp.body))
        b = body(resp)
        ctx.check({n: v for n, v in b.items() if n.startswith("tr")} == {f"tr{i}": i for i in range(k)}, "token response members", got=sorted(b), hooks=k)
        got = sorted((n, c) for n, c, a, cfg in CALLS)
        ctx.check(got == sorted((str(i), c) for i in range(k) for c in ("authorization_response", "token_response")), "hook calls are not those registered", got=got, hooks=k)
        ctx.step(2)
        ctx.state("crowd", k)
    CALLS.clear()
    GIVEN.clear()
    ctx.trace()


def run_case(ctx, case):
    if case[0] == "crowd":
        return crowd(ctx, case[1])
    if case[0] == "family":
        for order, chosen in case[1]:
            family(ctx, order, chosen)
            ctx.trace()
        return
    import os
    import pickle
    # each history in its own process, because the registry under test may be process-wide
    for h in case[1]:
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                from mc.core import Violation
                out = None
                ctx.transitions, ctx.states = 0, set()
                try:
                    one(ctx, h)
                except Violation as v:
                    out = (v.message, repr(v.detail)[:2000])
                except BaseException as e:
                    import traceback
                    out = (f"unexpected {type(e).__name__}: {e}", traceback.format_exc()[-2000:])
                with os.fdopen(wr, "wb") as f:
                    f.write(pickle.dumps((out, ctx.transitions, ctx.states)))
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out, trans, states = pickle.loads(data)
        ctx.transitions += trans
        ctx.states |= states
        ctx.trace()
        if out:
            ctx.fail(out[0], history=h, detail=out[1])


def tag(hook):
    return getattr(hook, "tag", "")


def one(ctx, history):
    clock.set_now(clock.BASE)
    for h in (Full, Partial, Front, Refresh):   # different hooks may have the same name
        h.__name__ = h.__qualname__ = "Hook"
    worlds, hooks = [], []
    for ev in history:
        ctx.step()
        if ev[0] == "new":
            worlds.append(World(None))
            hooks.append([])
        elif ev[0] == "hook":
            grant, hook = HOOKS[ev[2]]
            worlds[ev[1]].provider.add_hook(grant, hook)
            hooks[ev[1]].append(ev[2])
        else:
            exercise(ctx, worlds, hooks, ev[1])
    for p in range(len(worlds)):
        exercise(ctx, worlds, hooks, p)
    ctx.state(tuple(tuple(sorted(h)) for h in hooks), history[-1][0])


def exercise(ctx, worlds, hooks, p):
    """Run every flow on provider p and compare the observed hook calls with the registered ones."""
    w = worlds[p]
    mine = [HOOKS[h][1] for h in hooks[p] if HOOKS[h][0] is AuthorizationCodeGrant]

    def expect(checkpoints, where):
        got = [(n, c) for n, c, a, cfg in CALLS]
        want = [(tag(h), c) for h in mine for c in checkpoints if hasattr(h, c) and h is not AuthorizationCodeFlow]
        ctx.check(sorted(got) == sorted(want), f"hook calls in {where} are not those registered", got=got, want=want)
        for n, c, a, cfg in CALLS:
            ctx.check(a is w.provider.adapter and cfg is w.provider.config, "a hook ran with another provider's adapter", hook=n)
        CALLS.clear()

    CALLS.clear()
    GIVEN.clear()
    p_ = w.auth_params("cb", scope="openid profile", state=f"st{p}")
    resp = w.send("authorize", w.auth_request(p_))
    pairs = dict(added_pairs(location(resp), p_["redirect_uri"]) or [])
    expect(CHECKPOINTS[:2], "authorization")
    given(ctx, {"client_id": "cb", "redirect_uri": p_["redirect_uri"], "state": f"st{p}", "scope": "openid profile"},
          {"redirect_uri": p_["redirect_uri"], "scopes": ["openid", "profile"], "nonce": "full" if Full in mine else None}, pairs.get("code"))
    want = {"code", "state"} | ({"full_ar", "full_ar_zero"} if Full in mine else set()) | ({"front_ar", *ODD} if Front in mine else set())
    ctx.check(set(pairs) == want, "authorization response members", got=sorted(pairs), want=sorted(want))
    rec = w.codes[pairs["code"]]
    ctx.check(rec["nonce"] == ("full" if Full in mine else None), "a hook changed the stored request", nonce=rec["nonce"])
    resp = w.send("token", w.token_request(w.code_form(pairs["code"])))
    ctx.check(granted(resp), "refused", body=repr(resp.body))
    expect(CHECKPOINTS[2:], "redemption")
    b = body(resp)
    given(ctx, {"code": pairs["code"], "redirect_uri": p_["redirect_uri"]}, {"code": pairs["code"], "full_tq": "1" if Full in mine else None, **(FALSY if Full in mine else {})}, token=b.get("access_token"))
    want = {"access_token", "token_type", "expires_in", "refresh_token", "scope"}
    want |= ({"full_tr", *FALSY} if Full in mine else set()) | ({"partial_tr"} if Partial in mine else set())
    want |= {"id_token"} if AuthorizationCodeFlow in mine else set()
    ctx.check(set(b) == want, "token response members", got=sorted(b), want=sorted(want))
    exact = {**({"full_tr": "1", **FALSY} if Full in mine else {}), **({"partial_tr": "1", "expires_in": 77} if Partial in mine else {})}
    ctx.check(all(b[k] == v and type(b[k]) is type(v) for k, v in exact.items()), "a member of a hook was changed", got=b, want=exact)
    resp = w.send("token", w.token_request({"grant_type": "refresh_token", "refresh_token": b["refresh_token"]}))
    ctx.check(granted(resp) and not any("_tr" in k for k in body(resp)), "refresh response", body=repr(resp.body))
    resp2 = w.send("token", w.token_request({"grant_type": "client_credentials"}))
    ctx.check(granted(resp2), "client_credentials refused")
    # hooks of this provider for other grants may run there, but no hook of another provider and no code hook
    for n, c, a, cfg in CALLS:
        ctx.check(a is w.provider.adapter and n not in [tag(h) for h in mine if h is not Partial], "a hook ran in another grant",
                  hook=n, checkpoint=c)
    CALLS.clear()
    # refused requests run no response hook
    resp = w.send("authorize", w.auth_request(w.auth_params("cb", scope="root")))
    ctx.check(not any(c == "authorization_response" for _, c, _, _ in CALLS), "response hook ran for a refused request")
    CALLS.clear()
    GIVEN.clear()
    ctx.step(5)
    assert CHALLENGE


def given(ctx, request, response, code=None, token=None):
    """What the hooks were given is of this request."""
    for checkpoint, got in GIVEN:
        want = request if checkpoint.endswith("request") else response
        data = got["data"]
        ctx.check(all(data.get(k) == v for k, v in want.items()), "a hook got other data", checkpoint=checkpoint, got=repr(data), want=want)
        if checkpoint == "authorization_response":
            ctx.check(got["code"] == code, "a hook got another code", got=got["code"], want=code)
        if checkpoint == "token_response":
            ctx.check(got["token"].get("access_token") == token, "a hook got another token", got=repr(got["token"]), want=token)
        if "client" in got:
            ctx.check(getattr(got["client"], "id", None) == "cb" and hasattr(got["client"], "uris") and getattr(got["user"], "id", None) == "u1",
                      "a hook got another client or user", checkpoint=checkpoint, client=repr(got["client"]), user=repr(got["user"]))
    GIVEN.clear()


def inherited(want, chosen, checkpoints):
    """Whether hooks of the standard grant also run in the grants that extend it is left open."""
    return sorted(want + [(FAMILY_HOOKS[h].tag, k) for g, h in chosen if g == "standard" for k in checkpoints if hasattr(FAMILY_HOOKS[h], k)])


def family(ctx, order, chosen):
    """Hooks of one grant class do not run in the flows of its siblings or of the class it extends."""
    clock.set_now(clock.BASE)
    w = World(None, grants=[FAMILY[g] for g in order] + ["refresh_token"])
    c = w.clients["cb"]
    c.grants += ["sibling", "cousin", "device"]
    c.responses += ["sibling", "cousin"]
    for g, h in chosen:
        w.provider.add_hook(FAMILY[g], FAMILY_HOOKS[h])
        ctx.step()
    # the response type "code" belongs to whichever grant of it comes first
    for g in order:
        mine = [h for gg, h in chosen if gg == g]
        rt = FAMILY[g].__response_type__
        front = next(o for o in order if FAMILY[o].__response_type__ == rt)
        auth_mine = [h for gg, h in chosen if gg == front]
        CALLS.clear()
        p = w.auth_params("cb", scope="profile", response_type=rt)
        resp = w.send("authorize", w.auth_request(p))
        got = sorted((n, k) for n, k, _, _ in CALLS)
        want = sorted((FAMILY_HOOKS[h].tag, k) for h in auth_mine for k in CHECKPOINTS[:2] if hasattr(FAMILY_HOOKS[h], k))
        ctx.check(got == want or front != "standard" and got == inherited(want, chosen, CHECKPOINTS[:2]),
                  "hook calls in the authorization of one grant of a family", grant=g, got=got, want=want, order=order, chosen=chosen)
        CALLS.clear()
        pairs = dict(added_pairs(location(resp), p["redirect_uri"]) or [])
        resp = w.send("token", w.token_request({**w.code_form(pairs["code"]), "grant_type": FAMILY[g].__grant_type__}))
        ctx.check(granted(resp), "refused", body=repr(resp.body), grant=g, order=order, chosen=chosen)
        got = sorted((n, k) for n, k, _, _ in CALLS)
        want = sorted((FAMILY_HOOKS[h].tag, k) for h in mine for k in CHECKPOINTS[2:] if hasattr(FAMILY_HOOKS[h], k))
        ctx.check(got == want or g != "standard" and got == inherited(want, chosen, CHECKPOINTS[2:]),
                  "hook calls in the redemption of one grant of a family", grant=g, got=got, want=want, order=order, chosen=chosen)
        CALLS.clear()
        ctx.step(2)
    ctx.state("family", tuple(order), tuple(map(tuple, chosen)))
