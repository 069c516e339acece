"""C04: the user agent is only ever redirected to a registered URI or the error page."""
from mc import clock, coincide, hist
from mc.checks.c10 import EXCS
from mc.near import near, near_uri
from mc.util import added_pairs, attempt, client, grid
from mc.world import CHALLENGE, ERROR_URL, World, location
from psion.oidc import AuthorizationCodeFlow

ID = "C04"
ASSUMPTIONS = ["the storage answers client lookups truthfully; an unauthenticated user is request.user None",
               "a scope parameter of blanks only may be accepted or refused"]
BOUNDS = {
    "quick": "full product: 10 client_id x 16 redirect_uri x 8 response_type x user/no user x 3 challenges x 3 methods x "
             "8 scopes GET; POST with at most one of user, challenge, method bad; get_consent_data; one storage fault; "
             "every near miss of 5 redirect URIs (presented or registered instead) and of the client ID; clients with up to 101 registered URIs",
    "thorough": "as quick without the restrictions, state present/absent, with OpenID hook on/off, two error page URLs and two provider grant sets",
}
REG = {
    "cb": ["https://cb.example/cb", "https://cb.example/alt?tenant=1", "https://shared.example/cb"],
    "cp": ["https://cp.example/cb", "https://shared.example/cb"],
    "pub": ["http://127.0.0.1:8080/cb"],
    "tok": ["https://tok.example/cb"],   # registered for another response type only
    "none": ["https://none.example/cb"],  # no response types
    "nouri": [],
}
CLIENT_IDS = [None, "", "nobody", "cb", "cp", "pub", "tok", "none", "nouri", "CB"]
URIS = [None, "", "https://cb.example/cb", "https://cb.example/alt?tenant=1", "https://shared.example/cb",
        "https://cp.example/cb", "http://127.0.0.1:8080/cb", "https://tok.example/cb", "https://none.example/cb",
        "https://evil.example/cb", "https://cb.example/cb/", "https://cb.example/c", "https://cb.example/cb?x=1",
        "https://CB.example/cb", "https://cb.example/cb@evil.example", "https://as.example/error"]
TYPES = [None, "", "code", "token", "id_token", "code token", "Code", "none"]
SCOPES = [None, "", "profile", "openid profile", "admin", "profile admin", "root", "profile root"]
CHALLENGES = [CHALLENGE, None, "short"]
METHODS = ["S256", None, "S512"]


def clients():
    secret = {"cb": "client_secret_basic", "cp": "client_secret_post"}
    out = {}
    for cid, uris in REG.items():
        responses = {"tok": ["token"], "none": []}.get(cid, ["code"])
        out[cid] = client(cid, None if cid == "pub" else "s-" + cid, secret.get(cid, "none"), uris, responses=responses,
                          scopes=["openid", "profile", "email"])
    return out


def cases(tier):
    out = []
    deep = tier == "thorough"
    for g in grid(client_id=CLIENT_IDS, redirect_uri=URIS, verb=["GET", "POST", "consent"],
                  oidc=[False, True] if deep else [False], err=[ERROR_URL, ERROR_URL + "?lang=en"] if deep else [ERROR_URL],
                  grants=["all", "noac"] if deep else ["all"]):
        out.append(["grid", g])
    for g in grid(client_id=["cb", "pub", "nobody", "tok"], redirect_uri=URIS[2:10], verb=["GET", "consent"], user=["u1", None],
                  oidc=[False, True]):
        out.append(["fault", g])
    for n in (2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 64, 65, 100, 101):
        for g in grid(client_id=["cb", "pub"], verb=["GET", "POST", "consent"], oidc=[False]):
            out.append(["crowd", dict(g, number=n)])
    for g in grid(client_id=list(REG)[:3], verb=["GET", "POST", "consent"], oidc=[False], direction=["presented", "registered", "id"]):
        for uri in REG[g["client_id"]]:
            for part in range(4):
                out.append(["near", dict(g, redirect_uri=uri, part=part)])
    return out


def run_near(ctx, g):
    cid, uri = g["client_id"], g["redirect_uri"]
    for i, x in enumerate(near(cid) if g["direction"] == "id" else near_uri(uri)):
        if i % 4 != g["part"]:
            continue
        for user in ("u1", None):
            w = build(ctx, g)
            params = {"client_id": x if g["direction"] == "id" else cid, "redirect_uri": x if g["direction"] == "presented" else uri,
                      "response_type": "code", "code_challenge": CHALLENGE, "code_challenge_method": "S256", "scope": "profile",
                      "state": "s"}
            reg = REG
            if g["direction"] == "registered":
                w.clients[cid].uris = [x]
                reg = {cid: [x]}
            judge(ctx, w, g, dict(params), params, user, ERROR_URL, reg=reg)


def run_crowd(ctx, g):
    """n registered URIs: each edge position and the middle one presented, and one that is not among them."""
    cid, n = g["client_id"], g["number"]
    uris = [f"https://{cid}.example/cb{i}" for i in range(n)]
    for uri in [uris[i] for i in sorted({0, 1, n // 2, n - 2, n - 1})] + [f"https://{cid}.example/cb{n}", f"https://{cid}.example/cb"]:
        for user in ("u1", None):
            w = build(ctx, g)
            w.clients[cid].uris = list(uris)
            params = {"client_id": cid, "redirect_uri": uri, "response_type": "code", "code_challenge": CHALLENGE, "code_challenge_method": "S256",
                      "scope": "profile", "state": "s"}
            judge(ctx, w, g, dict(params), params, user, ERROR_URL, reg={cid: uris})


def bound(tier, case):
    return 1


def run_case(ctx, case):
    mode, g = case
    if mode == "crowd":
        return run_crowd(ctx, g)
    if mode == "near":
        return run_near(ctx, g)
    if mode == "fault":
        w = build(ctx, g)
        w.faults = True
        w.fault_exc = EXCS
        params = {"client_id": g["client_id"], "redirect_uri": g["redirect_uri"], "response_type": "code",
                  "code_challenge": CHALLENGE, "code_challenge_method": "S256", "scope": "profile", "state": "s"}
        judge(ctx, w, g, dict(params), params, g["user"], ERROR_URL, faulty=True)
        return
    for h in grid(response_type=TYPES, user=["u1", None], code_challenge=CHALLENGES, code_challenge_method=METHODS,
                  scope=SCOPES, state=["st", None] if ctx.tier == "thorough" else ["st"]):
        if g["verb"] == "consent" and (h["code_challenge"] != CHALLENGE or h["code_challenge_method"] != "S256"):
            continue
        if g["verb"] == "POST" and ctx.tier == "quick" and (h["code_challenge"] != CHALLENGE) + (
                h["code_challenge_method"] != "S256") + (h["user"] is None) > 1:
            continue
        w = build(ctx, g)
        params = {k: v for k, v in h.items() if v is not None and k != "user"}
        for k in ("client_id", "redirect_uri"):
            if g[k] is not None:
                params[k] = g[k]
        judge(ctx, w, g, h, params, h["user"], g["err"])


def build(ctx, g):
    """The provider is stateless between these requests, but each gets a new one; clients are shared objects."""
    clock.set_now(clock.BASE)
    grants = ["client_credentials", "refresh_token"] if g.get("grants") == "noac" else None
    return World(ctx, clients=clients(), grants=grants, error_url=g.get("err", ERROR_URL),
                 hooks=[("authorization_code", AuthorizationCodeFlow)] if g["oidc"] and not grants else [])


def judge(ctx, w, g, h, params, user, err, faulty=False, reg=REG):
    consent = g["verb"] == "consent"
    req = w.auth_request(params, user, "GET" if consent else g["verb"])
    if consent:
        try:
            from mc.loop import run
            resp = run(w.provider.authorize.get_consent_data(req))
        except Exception:
            resp = None
    else:
        resp = attempt(w, "authorize", req)
    ctx.trace()
    cid, uri, rt = params.get("client_id"), params.get("redirect_uri"), params.get("response_type")
    trusted = bool(cid in reg and uri in reg[cid])
    fatal = not cid or not uri or not rt or not trusted
    info = dict(params=params, user=user, verb=g["verb"])
    code = None
    if isinstance(resp, dict):
        ctx.check(consent, "a dictionary was returned", **info)
        ctx.check(not fatal, "consent was asked for an invalid client or redirect URI", **info)
        ctx.check(resp["client"].get_client_id() == cid, "consent data of another client", **info)
        ctx.outcome("consent")
    elif resp is not None:
        loc = location(resp)
        ctx.check(loc is not None and resp.status_code in (301, 302, 303, 307, 308), "the answer is no redirect", status=resp.status_code,
                  location=loc, **info)
        to_error = added_pairs(loc, err)
        # client_id may be registered and still not trusted for this redirect_uri
        to_client = added_pairs(loc, uri) if trusted else None
        if to_client is not None and to_error is not None:
            to_error = None
        ctx.check(to_error is not None or to_client is not None, "redirected to a URI that is not registered",
                  location=loc, **info)
        if fatal:
            ctx.check(to_error is not None, "not answered with the error page", location=loc, **info)
        given = dict(to_client if to_client is not None else to_error)
        code = given.get("code")
        ctx.check(code is None or to_client is not None, "a code was sent to the error page", location=loc, **info)
        ctx.check(("error" in given) != ("code" in given), "neither code nor error, or both", location=loc, **info)
        ctx.outcome("code" if code else f"{'page' if to_error is not None else 'client'}:{given.get('error')}")
    scope = h.get("scope")
    permitted = bool(scope) and all(s in ("openid", "profile", "email") for s in scope.split())
    expect = (not consent and not fatal and user is not None and rt == "code" and "code" in w.clients[cid].responses
              and g.get("grants") != "noac" and params.get("code_challenge") == CHALLENGE
              and params.get("code_challenge_method") == "S256" and permitted)
    if faulty:
        ctx.check(code is None or expect, "a code was issued", **info)
        ctx.state(g, ctx.trail and ctx.trail[-1][1:3], resp is None, code is None)
        return
    ctx.check(bool(code) == expect, "a code was %s" % ("issued" if code else "not issued"),
              location=location(resp) if resp is not None and not isinstance(resp, dict) else None, **info)
    if expect:
        ctx.check(list(w.codes) == [code], "the code sent is not the code stored", **info)
        rec = w.codes[code]
        ctx.check((rec["client"], rec["user"], rec["redirect_uri"]) == (cid, user, uri)
                  and sorted(rec["scopes"]) == sorted(scope.split()), "the code is bound to something else",
                  stored=rec, **info)
    else:
        ctx.check(not w.codes, "a code was stored although none was sent", **info)
    ctx.state(g["verb"], sorted(params.items()), user, bool(code))


hist.add(globals(), ["cb-gone", "pub-gone", "cb-alt-only", "cb-new-uri", "pub-alt-only", "cb-no-response", "cb-fewer-scopes", "restore"],
         hist.pick("authorize:", "consent:"), view=lambda v: v)

coincide.add(globals(), coincide.authorize)
