"""C31: token responses are complete, correct and never cacheable."""
import itertools

from mc import clock
from mc.checks.c10 import EXCS
from mc.util import OAUTH_ERRORS, client
from mc.world import CHALLENGE, SCOPES as WORLD_SCOPES, VERIFIER, World, header, make_request, strict_json
from psion.oidc import AuthorizationCodeFlow

ID = "C31"
ASSUMPTIONS = ["the storage returns access tokens as non-empty text", "hooks may add members (the OpenID flow adds id_token)",
               "which requests succeed, and with which scopes, is decided by the other properties"]
BOUNDS = {
    "quick": "3 grants x 3 client authentication methods x with/without the refresh grant x with/without the OpenID flow x 8 requested scopes x 6 lifetimes x "
             "9 token texts (JSON-special, non-ASCII, long); 40 refused requests; one storage fault at every call, before and after its effect, of every "
             "grant; all histories of up to 3 requests over 9 kinds on one provider with every response examined",
    "thorough": "histories of up to 4 requests; two faults",
}
GRANTS = ["authorization_code", "client_credentials", "refresh_token"]
SCOPES = [None, "profile", "openid profile", "email profile", "openid", "admin", "API.Read profile", "https://x.example/Scope?a=%20&b"]
LIVES = [3600, 1, 0, 10 ** 9, 77, 86401]
TEXTS = ["{}", "tok-{}", "{}\"\\", "\u00e9{}\u6f22", "{}" + "x" * 5000, "a.b-c_{}~", "{} b", "null{}", "{}\u2028\n"]


def build(ctx, refresh=True, oidc=False, life=3600, text="tok-{}", refresh_none=False):
    clock.set_now(clock.BASE)
    grants = GRANTS if refresh else GRANTS[:2]
    # a client that is not registered for refreshing still appears as owner of an old refresh token
    cl = {i: client(i, s, m, [f"https://{i}.example/cb"], grants) for i, s, m in
          (("cb", "sb", "client_secret_basic"), ("cp", "sp", "client_secret_post"), ("pub", None, "none"))}
    names = [*WORLD_SCOPES, "API.Read", "https://x.example/Scope?a=%20&b"]
    for c in cl.values():
        c.scopes = list(names)
    w = World(ctx, clients=cl, scopes=names, lifespan=life, hooks=[("authorization_code", AuthorizationCodeFlow)] if oidc else [])
    plain_a, plain_r = w.do_access, w.do_refresh

    def access(c, o, s):
        t = text.format(plain_a(c, o, s))
        w.issued[-1]["token"] = t
        return t

    def refreshed(c, u, s):
        if refresh_none:
            return None
        t0 = plain_r(c, u, s)
        t = text.format(t0)
        w.refresh[t] = w.refresh.pop(t0)
        w.refresh[t]["token"] = t
        w.issued[-1]["token"] = t
        return t
    w.do_access, w.do_refresh = access, refreshed
    return w


def request(w, grant, who, scope=None, code_scopes=("openid", "profile"), n=0, **over):
    if grant == "authorization_code":
        form = {"grant_type": grant, "code": f"code{n}", "redirect_uri": w.clients[who].uris[0], "code_verifier": VERIFIER}
        w.codes[f"code{n}"] = {"client": who, "user": "u1", "redirect_uri": w.clients[who].uris[0], "scopes": list(code_scopes), "challenge": CHALLENGE,
                               "method": "S256", "nonce": None, "auth_time": 0, "expires": clock.NOW + 600}
    elif grant == "client_credentials":
        form = {"grant_type": grant}
    else:
        form = {"grant_type": grant, "refresh_token": f"old{n}"}
        w.refresh[f"old{n}"] = {"token": f"old{n}", "client": who, "user": "u1", "scopes": list(w.scopes), "expires": clock.NOW + 600}
    if scope is not None and grant != "authorization_code":
        form["scope"] = scope
    form.update(over)
    form = {k: v for k, v in form.items() if v is not None}
    f, h = w.client_auth(who, form)
    return make_request("POST", "/token", form=f, headers=h)


def examine(ctx, w, resp, since, faulted=False, want=None, **info):
    """Judge one response of the token endpoint; since: number of tokens issued before the request."""
    ctx.trace()
    ctx.step()
    ctx.check(resp is not None, "no response", **info)
    info.update(status=resp.status_code, headers=dict(resp.headers), body=resp.body)
    ctx.check(header(resp, "cache-control") == "no-store", "the response may be cached", **info)
    ctx.check(header(resp, "pragma") == "no-cache", "the response may be cached", **info)
    ct = header(resp, "content-type")
    ctx.check(isinstance(ct, str) and ct.split(";")[0].strip().lower() == "application/json", "the response is not typed application/json", **info)
    ctx.check(isinstance(resp.body, bytes), "the body is not octets", **info)
    try:
        b = strict_json(resp.body)
    except ValueError:
        b = None
    ctx.check(isinstance(b, dict), "the body is not a JSON object", **info)
    ctx.check(None not in b.values(), "a member is null", **info)
    new = w.issued[since:]
    if resp.status_code == 200:
        at = [t for t in new if t["kind"] == "at"]
        rt = [t for t in new if t["kind"] == "rt"]
        ctx.check(len(at) == 1, "not exactly one access token was created", created=new, **info)
        ctx.check(b.get("access_token") == at[0]["token"], "not the access token just created", created=at, **info)
        ctx.check(b.get("token_type") == "Bearer", "the token type is not Bearer", **info)
        ctx.check(type(b.get("expires_in")) is int and b["expires_in"] == w.lifespan, "not the configured lifetime", lifetime=w.lifespan, **info)
        if rt:
            ctx.check(len(rt) == 1 and b.get("refresh_token") == rt[0]["token"], "not the refresh token just created", created=rt, **info)
        else:
            ctx.check("refresh_token" not in b, "a refresh token that was not created", **info)
        if "scope" in b:
            ctx.check(isinstance(b["scope"], str) and b["scope"].split(" ") == b["scope"].split() and sorted(b["scope"].split()) == sorted(at[0]["scopes"] or []),
                      "scope is not the issued scopes as plain text", issued=at[0]["scopes"], **info)
        ctx.check("error" not in b, "a success names an error", **info)
        ctx.check(set(b) <= {"access_token", "token_type", "expires_in", "refresh_token", "scope", "id_token"}, "unknown members", **info)
        ctx.outcome("success")
        return "success"
    ctx.check(isinstance(b.get("error"), str) and b["error"] in OAUTH_ERRORS, "the error is not named", **info)
    server = b["error"] == "server_error"
    ctx.check(resp.status_code == (500 if server else 400), "an error has another status", **info)
    ctx.check(faulted or not server, "a server error without a failure", **info)
    ctx.check(not set(b) & {"access_token", "refresh_token", "id_token", "token_type"}, "an error carries tokens", **info)
    for m in ("error_description", "error_uri", "state"):
        ctx.check(isinstance(b.get(m, ""), str), "a member of an error is not text", **info)
    ctx.outcome(b["error"])
    return b["error"]


BAD = [
    {"grant_type": None}, {"grant_type": ""}, {"grant_type": "password"}, {"grant_type": "implicit"}, {"grant_type": "AUTHORIZATION_CODE"}, {"code": None}, {"code": "unknown"},
    {"code_verifier": None}, {"code_verifier": "wrong"}, {"code_verifier": "\u00e9" * 50}, {"redirect_uri": None}, {"redirect_uri": "https://evil.example/"},
    {"refresh_token": None}, {"refresh_token": "unknown"}, {"scope": "nope"}, {"scope": "profile nope"}, {"scope": "\u00e9\"\\"}, {"client_id": "ghost"},
    {"client_secret": "wrong"}, {"client_id": "cp", "client_secret": "sp"}, {"client_id": None},
]
KINDS = ["code", "code-oidc", "cc", "cc-none", "refresh", "bad-grant", "bad-client", "bad-scope", "used-code"]


def cases(tier):
    deep = tier == "thorough"
    out = [["grid", g, who, r, o] for g in GRANTS for who in ("cb", "cp", "pub") for r in (True, False) for o in (True, False)]
    out += [["bad", g, who, i] for g in GRANTS for who in ("cb", "cp", "pub") for i in range(len(BAD))]
    out += [["fault", g, who, o] for g in GRANTS for who in ("cb", "cp", "pub") for o in (True, False)]
    for n in range(1, 5 if deep else 4):
        out += [["history", list(h)] for h in itertools.product(KINDS, repeat=n)]
    out += [["empty"]]
    return out


def bound(tier, case):
    if case[0] == "fault":
        return 2 if tier == "thorough" else 1
    return None


def run_case(ctx, case):
    mode = case[0]
    ctx.state(case)
    if mode == "grid":
        _, grant, who, refresh, oidc = case
        for scope, life, text, none in itertools.product(SCOPES, LIVES, TEXTS, (False, True)):
            w = build(ctx, refresh, oidc, life, text, none)
            req = request(w, grant, who, scope, code_scopes=(scope or "profile").split())
            resp = w.send("token", req)
            res = examine(ctx, w, resp, 0, grant=grant, client=who, scope=scope, refresh=refresh, oidc=oidc, text=text)
            expect = not (grant == "client_credentials" and who == "pub") and not (grant == "refresh_token" and not refresh)
            ctx.check((res == "success") == expect, "a good request was refused, or a bad one granted", result=res, grant=grant, client=who)
            if none and res == "success":
                ctx.check("refresh_token" not in strict_json(resp.body), "a refresh token that was not created")
    elif mode == "bad":
        _, grant, who, i = case
        for oidc in (False, True):
            w = build(ctx, True, oidc)
            req = request(w, grant, who, "profile", **{})
            over = dict(BAD[i])
            form = dict(req.data)
            for k, v in over.items():
                form.pop(k, None)
                if v is not None:
                    form[k] = v
            h = {k: v for k, v in req.headers.items() if k in ("authorization",)}
            for hh in (h, {}, {"authorization": "Basic junk"}, {"authorization": "Basic Z2hvc3Q6eA=="}):
                w2 = build(ctx, True, oidc)
                request(w2, grant, who, "profile")
                examine(ctx, w2, w2.send("token", make_request("POST", "/token", form=form, headers=hh)), 0, grant=grant, client=who, change=over)
    elif mode == "fault":
        _, grant, who, oidc = case
        w = build(ctx, True, oidc)
        req = request(w, grant, who, "openid profile")
        w.faults = True
        w.fault_exc = EXCS
        resp = w.send("token", req)
        res = examine(ctx, w, resp, 0, faulted=w.fault_fired is not None, grant=grant, client=who, fault=w.fault_fired)
        ctx.check(w.fault_fired is None or res != "success", "a success in spite of a storage failure", fault=w.fault_fired)
    elif mode == "history":
        w = build(ctx, True, True)
        for n, kind in enumerate(case[1]):
            since = len(w.issued)
            if kind == "code":
                req = request(w, "authorization_code", "cb", code_scopes=("profile",), n=n)
            elif kind == "code-oidc":
                req = request(w, "authorization_code", "pub", code_scopes=("openid", "email"), n=n)
            elif kind == "cc":
                req = request(w, "client_credentials", "cp", "profile email")
            elif kind == "cc-none":
                req = request(w, "client_credentials", "cb")
            elif kind == "refresh":
                req = request(w, "refresh_token", "pub", "profile", n=n)
            elif kind == "bad-grant":
                req = request(w, "authorization_code", "cb", n=n, grant_type="password")
            elif kind == "bad-client":
                req = make_request("POST", "/token", form={"grant_type": "client_credentials"}, headers={"Authorization": "Basic Y2I6bm9wZQ=="})
            elif kind == "bad-scope":
                req = request(w, "client_credentials", "cb", "nope")
            else:
                req = request(w, "authorization_code", "cb", n=n, code="gone")
            res = examine(ctx, w, w.send("token", req), since, history=case[1], number=n)
            ctx.check((res == "success") == (kind in KINDS[:5]), "a good request was refused, or a bad one granted", result=res, history=case[1], number=n)
            ctx.state(case[1][:n + 1])
    else:
        for form in ({}, {"x": "y"}):
            for m in ("POST", "GET"):
                for h in ({}, {"Authorization": "Basic Y2I6c2I="}):
                    w = build(ctx)
                    examine(ctx, w, w.send("token", make_request(m, "/token", form=form, headers=h)), 0, form=form)
