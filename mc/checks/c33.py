"""C33: what the user is asked to consent to is what the request can obtain."""
import itertools

from mc import clock, coincide
from mc.loop import run
from mc.checks.c10 import EXCS
from mc.near import near, near_uri
from mc.util import added_pairs, attempt, client, effects, grid
from mc.world import CHALLENGE, ERROR_URL, REQ, World, location
from psion.oidc import AuthorizationCodeFlow

ID = "C33"
ASSUMPTIONS = ["clients are only allowed scopes the provider supports; get_allowed_scopes(list) returns the allowed ones of the list",
               "the order and multiplicity of the scopes in the consent data are not judged",
               "PKCE parameters, the logged-in user and the provider's support of the response type are judged at authorization (C03, C04, C08)",
               "a scope parameter of blanks only may be accepted or refused"]
BOUNDS = {
    "quick": "full product: 10 client_id x 14 redirect_uri x 9 response_type x 8 scopes x 4 states x GET/POST x user/no user; all 16 "
             "subsets of 4 allowed scopes x all requests of <=3 items over 7 names (order, duplicates, near misses) x 3 spellings, each followed by "
             "authorization of the same request (same and new request object); all histories of <=4 over {consent, authorize} x 3 requests; "
             "every near miss of client, redirect URI, response type and scope, and up to 1,000 scopes; the registration changing in up to 2 of 8 ways "
             "between requests; one storage fault",
    "thorough": "requests of <=4 items; histories of <=6; OpenID hook on/off; two error pages",
}
REG = {
    "cb": ["https://cb.example/cb", "https://cb.example/alt?tenant=1"],
    "cp": ["https://cp.example/cb"],
    "pub": ["http://127.0.0.1:8080/cb"],
    "tok": ["https://tok.example/cb"],
    "both": ["https://both.example/cb"],
    "none": ["https://none.example/cb"],
    "nouri": [],
}
RESPONSES = {"tok": ["token"], "none": [], "both": ["token", "code"]}
CLIENT_IDS = [None, "", "nobody", "CB", *REG]
URIS = [None, "", *[u for us in REG.values() for u in us], "https://evil.example/cb", "https://cb.example/cb/", "https://cb.example/c",
        "https://CB.example/cb", "https://cb.example/alt"]
TYPES = [None, "", "code", "token", "Code", "cod", "code token", "id_token", "none"]
SCOPES = [None, "", "profile", "openid profile", "admin", "profile admin", "root", "email root profile"]
STATES = [None, "s", "a b&c=d+%", "\u00e9#"]
NAMES = ["openid", "profile", "email", "pro", "profiles", "root", "Profile"]
ALL = ["openid", "profile", "email", "pro"]


def clients(allowed=("openid", "profile", "email")):
    out = {}
    for cid, uris in REG.items():
        out[cid] = client(cid, None if cid == "pub" else "s-" + cid, "none" if cid == "pub" else "client_secret_basic", uris,
                          responses=RESPONSES.get(cid, ["code"]), scopes=list(allowed))
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for g in grid(client_id=CLIENT_IDS, redirect_uri=URIS, verb=["GET", "POST"], oidc=[False, True] if deep else [False],
                  err=[ERROR_URL, ERROR_URL + "?lang=en"] if deep else [ERROR_URL]):
        out.append(["grid", g])
    for n in range(5):
        for allowed in itertools.combinations(ALL, n):
            for first in NAMES:
                out.append(["scopes", list(allowed), first, 4 if deep else 3])
    for n in range(1, 7 if deep else 5):
        out.append(["history", n])
    for what in ("client_id", "redirect_uri", "response_type", "scope", "many"):
        out.append(["near", what])
    for n in range(1, 4 if deep else 3):
        for first in CHANGES:
            out.append(["change", n, first])
    for cid in ("cb", "pub", "tok", "nobody"):
        out.append(["fault", cid])
    return out


def bound(tier, case):
    return 1


def build(ctx, allowed=("openid", "profile", "email"), oidc=False, err=ERROR_URL, scopes=None):
    clock.set_now(clock.BASE)
    return World(ctx, clients=clients(allowed), error_url=err, scopes=scopes, hooks=[("authorization_code", AuthorizationCodeFlow)] if oidc else [])


def consent(w, req):
    token = REQ.set("consent")
    try:
        return run(w.provider.authorize.get_consent_data(req))
    except Exception:
        return None
    finally:
        REQ.reset(token)


def read(resp):
    """("consent", client id, scopes) of an answer that has consent data."""
    return ("consent", resp["client"].get_client_id(), tuple(sorted({str(s) for s in resp["scopes"]})))


def judge(ctx, w, resp, params, err, allowed=("openid", "profile", "email"), **info):
    cid, uri, rt, scope = (params.get(k) for k in ("client_id", "redirect_uri", "response_type", "scope"))
    info.update(params=params)
    ctx.trace()
    ctx.check(resp is not None, "asking for consent raised or returned nothing", **info)
    ctx.check(not effects(w.log), "asking for consent had an effect on the storage", effects=effects(w.log), **info)
    fatal = not cid or not uri or not rt or cid not in REG or uri not in REG[cid]
    if fatal:
        want = None
    elif rt not in w.clients[cid].responses:
        want = ("unauthorized_client", "unsupported_response_type")
    elif not scope:
        want = ("invalid_request", "invalid_scope")
    else:
        want = "data"
    if want == "data":
        ctx.check(isinstance(resp, dict) and "client" in resp and "scopes" in resp, "no consent data for a valid request",
                  location=None if isinstance(resp, dict) else location(resp), **info)
        _, who, scopes = read(resp)
        ctx.check(who == cid, "consent data of another client", got=who, **info)
        ok = tuple(sorted({s for s in scope.split() if s in allowed}))
        ctx.check(scopes == ok, "the scopes to consent to are not the requested ones the client is allowed", got=scopes, want=ok, **info)
        ctx.outcome("data")
        return
    ctx.check(not isinstance(resp, dict), "consent was asked for a request that is not valid", **info)
    loc = location(resp)
    ctx.check(loc is not None and 300 <= resp.status_code < 400, "the answer is no redirect", **info)
    if fatal:
        pairs = added_pairs(loc, err)
        ctx.check(pairs is not None and dict(pairs).get("error"), "not answered with the error page", location=loc, **info)
        ctx.outcome("page")
        return
    pairs = added_pairs(loc, uri)
    ctx.check(pairs is not None, "the error did not go to the client's redirect URI", location=loc, **info)
    pairs = dict(pairs)
    ctx.check(pairs.get("error") in want and "code" not in pairs, "unexpected error", location=loc, want=want, **info)
    ctx.check(pairs.get("state") == (params.get("state") or None), "the state was not returned", location=loc, **info)
    ctx.outcome("client:" + pairs["error"])


def run_case(ctx, case):
    kind = case[0]
    if kind == "grid":
        g = case[1]
        for h in grid(response_type=TYPES, scope=SCOPES, state=STATES, user=["u1", None]):
            w = build(ctx, oidc=g["oidc"], err=g["err"])
            params = {k: v for k, v in {**h, "client_id": g["client_id"], "redirect_uri": g["redirect_uri"]}.items() if v is not None and k != "user"}
            resp = consent(w, w.auth_request(params, h["user"], g["verb"]))
            judge(ctx, w, resp, params, g["err"], verb=g["verb"], user=h["user"])
            ctx.state(g["verb"], g["oidc"], g["err"], h["user"], sorted(params.items()))
    elif kind == "scopes":
        _, allowed, first, depth = case
        for n in range(depth):
            for rest in itertools.product(NAMES, repeat=n):
                items = (first, *rest)
                for text in {" ".join(items), "  ".join(items), " " + " ".join(items) + " "}:
                    follow(ctx, allowed, text)
    elif kind == "near":
        near_values(ctx, case[1])
    elif kind == "change":
        changes(ctx, *case[1:])
    elif kind == "history":
        history(ctx, case[1])
    else:
        w = build(ctx)
        w.faults = True
        w.fault_exc = EXCS
        params = {"client_id": case[1], "redirect_uri": (REG.get(case[1]) or ["https://x.example"])[0], "response_type": "code", "scope": "profile", "state": "s"}
        resp = consent(w, w.auth_request(params, "u1"))
        if w.fault_fired:
            ctx.check(not isinstance(resp, dict), "consent data in spite of a storage failure", case=case)
        else:
            judge(ctx, w, resp, params, ERROR_URL)


def follow(ctx, allowed, scope):
    """Consent, then authorization of the same request: the code covers exactly what was consented to."""
    supported = [*ALL, "admin"]
    params = {"client_id": "cb", "redirect_uri": REG["cb"][0], "response_type": "code", "scope": scope, "state": "s", "code_challenge": CHALLENGE,
              "code_challenge_method": "S256"}
    for same in (False, True):
        w = build(ctx, allowed, scopes=supported)
        req = w.auth_request(params, "u1")
        resp = consent(w, req)
        judge(ctx, w, resp, params, ERROR_URL, allowed)
        shown = set(read(resp)[2])
        attempt(w, "authorize", req if same else w.auth_request(params, "u1"), "authorize")
        expect = all(s in allowed for s in scope.split())
        got = [set(c["scopes"]) for c in w.codes.values()]
        ctx.check(bool(got) == expect, "the request was %sauthorized after consent" % ("" if got else "not "), allowed=allowed, scope=scope, same_object=same)
        if got:
            ctx.check(got == [shown], "the code has other scopes than the user consented to", code=got, shown=shown, same_object=same)
        ctx.state(allowed, scope, same, bool(got))


def near_values(ctx, what):
    """One parameter is almost the right one; the others are right."""
    good = {"client_id": "cb", "redirect_uri": REG["cb"][1], "response_type": "code", "scope": "profile", "state": "s"}
    if what == "many":
        for n in (*range(1, 40), 63, 64, 65, 100, 128, 129, 256, 257, 1000):
            names = [f"s{i}" for i in range(n)]
            for allowed in (names, names[::2], names[-1:], names[:1]):
                for text in (" ".join(names), " ".join(reversed(names)), " ".join(names + names[:1])):
                    if n > 200 and allowed is not names:
                        continue
                    many(ctx, names, allowed, text)
        return
    values = near_uri(good[what]) if what == "redirect_uri" else near(good[what])
    for v in values:
        if what == "scope":
            if v.split() != [v]:
                continue
            for scope in (v, "profile " + v, v + " email"):
                w = build(ctx)
                params = {**good, "scope": scope}
                judge(ctx, w, consent(w, w.auth_request(params, "u1")), params, ERROR_URL)
        for both in (False, True):
            # the near value is unknown, or known and the usual one is not
            w = build(ctx)
            params = {**good, what: v}
            if both:
                c = w.clients["cb"]
                if what == "client_id":
                    w.clients[v] = w.clients.pop("cb")
                    c.id = v
                elif what == "redirect_uri":
                    c.uris = [v]
                elif what == "response_type":
                    c.responses = [v]
                else:
                    c.scopes = [v]
                params = good
            resp = consent(w, w.auth_request(params, "u1"))
            if both:
                ctx.trace()
                if what == "scope":
                    ctx.check(isinstance(resp, dict) and read(resp)[2] == (), "a scope the client is not allowed was shown", near=v, got=repr(resp))
                else:
                    ctx.check(resp is not None and not isinstance(resp, dict), "consent was asked for a request that is not valid", near=v, what=what)
            else:
                judge(ctx, w, resp, params, ERROR_URL)
        ctx.state(what, v)


def many(ctx, names, allowed, text):
    clock.set_now(clock.BASE)
    w = World(ctx, clients=clients(allowed), scopes=names)
    params = {"client_id": "cb", "redirect_uri": REG["cb"][0], "response_type": "code", "scope": text, "state": "s", "code_challenge": CHALLENGE,
              "code_challenge_method": "S256"}
    resp = consent(w, w.auth_request(params, "u1"))
    judge(ctx, w, resp, params, ERROR_URL, allowed)
    shown = set(read(resp)[2])
    attempt(w, "authorize", w.auth_request(params, "u1"), "authorize")
    got = [set(c["scopes"]) for c in w.codes.values()]
    ctx.check(got == ([shown] if set(names) == set(allowed) else []), "the code has other scopes than the user consented to", number=len(names), allowed=len(allowed))
    ctx.state(len(names), len(allowed), len(text))


CHANGES = ["fewer", "more", "gone", "uri", "response", "back", "other", "authorize"]


def changes(ctx, n, first):
    """The registration changes between two requests: the answer is that of a provider with the new registration."""
    reqs = [{"client_id": "cb", "redirect_uri": REG["cb"][0], "scope": "profile email", "state": "s1", "response_type": "code"},
            {"client_id": "both", "redirect_uri": REG["both"][0], "scope": "email", "state": "s2", "response_type": "code"}]

    def apply(w, change):
        if change == "back":
            w.clients.clear()
            w.clients.update(clients())
        elif change == "gone":
            w.clients.pop("cb", None)
        elif change == "authorize":
            attempt(w, "authorize", w.auth_request({**reqs[0], "code_challenge": CHALLENGE, "code_challenge_method": "S256"}, "u1"), "authorize")
        elif change == "other":
            if "both" in w.clients:
                w.clients["both"].scopes = ["openid"]
        elif "cb" in w.clients:
            c = w.clients["cb"]
            if change == "fewer":
                c.scopes = ["email"]
            elif change == "more":
                c.scopes = ["profile", "email", "admin", "openid"]
            elif change == "uri":
                c.uris = [REG["cb"][1]]
            else:
                c.responses = ["token"]

    def view(resp):
        if isinstance(resp, dict):
            return read(resp)
        return None if resp is None else (resp.status_code, location(resp))

    for rest in itertools.product(CHANGES, repeat=n - 1):
        for shared in (False, True):
            seq = [first, *rest]
            w = World(ctx, clients=clients(), shared=shared)
            for p in reqs:
                consent(w, w.auth_request(p, "u1"))
            for i, change in enumerate(seq):
                apply(w, change)
                fresh = World(None, clients=clients())
                for c in seq[:i + 1]:
                    if c != "authorize":
                        apply(fresh, c)
                for p in reqs:
                    got, want = view(consent(w, w.auth_request(p, "u1"))), view(consent(fresh, fresh.auth_request(p, "u1")))
                    ctx.trace()
                    ctx.check(got == want, "the answer is not that of the current registration", changes=seq[:i + 1], request=p, got=got, want=want)
            ctx.state("change", seq, shared)


REQUESTS = [
    {"client_id": "cb", "redirect_uri": REG["cb"][0], "scope": "profile admin", "state": "s1"},
    {"client_id": "both", "redirect_uri": REG["both"][0], "scope": "openid email", "state": "s2"},
    {"client_id": "tok", "redirect_uri": REG["tok"][0], "scope": "profile", "state": "s3"},
]


def history(ctx, n):
    """Asking for consent gives the same answer whatever was asked or authorized before, on one provider."""
    for steps in itertools.product(range(6), repeat=n):
        w = build(ctx)
        for s in steps:
            params = {**REQUESTS[s % 3], "response_type": "code", "code_challenge": CHALLENGE, "code_challenge_method": "S256"}
            if s < 3:
                del w.log[:]
                resp = consent(w, w.auth_request(params, "u1"))
                judge(ctx, w, resp, params, ERROR_URL, steps=steps)
            else:
                before = len(w.codes)
                attempt(w, "authorize", w.auth_request(params, "u1"), "authorize")
                ctx.check(len(w.codes) - before == (s == 4), "authorization after consent was answered differently", steps=steps)
        ctx.state("history", steps)

coincide.add(globals(), coincide.consent)
