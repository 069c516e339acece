"""C08: clients use only the grants and response types registered for them."""
import itertools

from mc import clock, hist
from mc.near import near
from mc.util import added_pairs, attempt, client
from mc.world import CHALLENGE, VERIFIER, World, body, error_of, granted, location
from psion.oidc import AuthorizationCodeFlow

ID = "C08"
ASSUMPTIONS = ["the client authenticates correctly and the presented code or refresh token is otherwise valid",
               "whether a provider without the refresh_token grant still issues refresh tokens is not judged"]
BOUNDS = {
    "quick": "8 provider grant subsets x 8 client grant subsets (both orders) x 3 client types x 14 grant_type values; "
             "8 provider subsets x 6 client response types x 9 response_type values x user; every near miss of the grant and response "
             "types, presented or registered instead of the right one; registrations "
             "of up to 103 grants and response types",
    "thorough": "as quick, plus all permutations of grant order in provider and client and the OpenID hook",
}
G = ["authorization_code", "client_credentials", "refresh_token"]
ASK = G + [None, "", "password", "Authorization_Code", "authorization", "authorization_code refresh_token",
           "client_credentials ", "REFRESH_TOKEN", "refresh", "implicit", "urn:ietf:params:oauth:grant-type:jwt-bearer"]
RESP = [None, "", "code", "token", "id_token", "Code", "code token", "cod", "none"]
CLIENT_RESP = [[], ["code"], ["token"], ["code", "token"], ["token", "code"], ["code token"]]
URI = "https://c.example/cb"


def subsets(items, orders):
    for n in range(len(items) + 1):
        for s in itertools.combinations(items, n):
            if orders == "all":
                yield from map(list, itertools.permutations(s))
            else:
                yield list(s)
                if n > 1:
                    yield list(s)[::-1]


def cases(tier):
    orders = "all" if tier == "thorough" else "two"
    out = []
    for p in subsets(G, orders):
        for who in ("client_secret_basic", "client_secret_post", "none"):
            for oidc in ([False, True] if tier == "thorough" else [False]):
                out.append(["token", p, who, oidc])
        for cr in CLIENT_RESP:
            out.append(["authorize", p, cr, False])
    for g in G:
        for who in ("client_secret_basic", "client_secret_post", "none"):
            out.append(["neartoken", g, who, False])
    out.append(["nearauthorize", None, None, False])
    out += [["crowd", n, None, False] for n in CROWD]
    return out


CROWD = sorted({2, 3, 4, 5, 6, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101})


def run_crowd(ctx, n):
    """A client registered for n grants and response types: the right one at an edge position, in the middle or absent."""
    for pos in sorted({0, 1, n // 2, n - 2, n - 1}) + [None]:
        for g, other in (("authorization_code", "refresh_token"), ("refresh_token", "authorization_code"), ("client_credentials", "refresh_token")):
            names = [f"urn:example:g{i}" for i in range(n)]
            if pos is not None:
                names[pos] = g
            token_case(ctx, G, "client_secret_basic", names, g, False)
            token_case(ctx, G, "client_secret_basic", [other] + names, g, False)
            token_case(ctx, G, "client_secret_basic", names + [other], g, False)
        names = [f"r{i}" for i in range(n)]
        if pos is not None:
            names[pos] = "code"
        authorize_case(ctx, G, names, "code", "u1", G)


def run_near(ctx, kind, g, who):
    if kind == "neartoken":
        for x in near(g):
            others = [o for o in G if o != g]
            for grants, ask in (([x], g), (others + [x], g), ([x] + others, g), ([g], x), (G, x), (G + [x], x), ([x], x)):
                token_case(ctx, G, who, grants, ask, False)
        return
    for x in near("code"):
        for responses, ask in (([x], "code"), ([x, "token"], "code"), (["token", x], "code"), (["code"], x), (["code", x], x), ([x], x)):
            authorize_case(ctx, G, responses, ask, "u1", G)


def build(ctx, provider, method, grants, responses, oidc):
    clock.set_now(clock.BASE)
    c = client("c", None if method == "none" else "s", method, [URI], grants=grants, responses=responses)
    w = World(ctx, clients={"c": c}, grants=provider,
              hooks=[("authorization_code", AuthorizationCodeFlow)] if oidc and "authorization_code" in provider else [])
    w.codes["code"] = {"client": "c", "user": "u1", "redirect_uri": URI, "scopes": ["profile"], "challenge": CHALLENGE,
                       "method": "S256", "nonce": None, "auth_time": 0, "expires": clock.NOW + 600}
    w.refresh["rt"] = {"token": "rt", "client": "c", "user": "u1", "scopes": ["profile"], "expires": clock.NOW + 600}
    return w


def run_case(ctx, case):
    kind, provider, x, oidc = case
    if kind == "crowd":
        return run_crowd(ctx, provider)
    if kind.startswith("near"):
        return run_near(ctx, kind, provider, x)
    orders = "all" if ctx.tier == "thorough" else "two"
    if kind == "token":
        for grants in subsets(G, orders):
            for ask in ASK:
                token_case(ctx, provider, x, grants, ask, oidc)
        return
    for ask in RESP:
        for user in ("u1", None):
            for grants in ([], G):
                authorize_case(ctx, provider, x, ask, user, grants)


def token_case(ctx, provider, method, grants, ask, oidc):
    w = build(ctx, provider, method, grants, ["code"], oidc)
    form = {"code": "code", "redirect_uri": URI, "code_verifier": VERIFIER, "refresh_token": "rt"}
    if ask is not None:
        form["grant_type"] = ask
    resp = attempt(w, "token", w.token_request(form, "c"))
    ctx.trace()
    ctx.state(provider, method, grants, ask)
    info = dict(provider=provider, client=grants, method=method, grant_type=ask, response=repr(resp and resp.body))
    allowed = ask in provider and ask in grants and not (method == "none" and ask == "client_credentials")
    got = granted(resp)
    ctx.check(got == allowed, "granted although not registered or supported" if got else "refused although registered", **info)
    if not got:
        ctx.check(not w.issued, "a token was created", **info)
        if resp is not None:
            e = error_of(resp)
            if not ask:
                want = {"invalid_request", "unsupported_grant_type"}
            elif ask not in provider:
                want = {"unsupported_grant_type"}
            elif method == "none" and ask == "client_credentials":
                want = {"invalid_client", "unauthorized_client"}
            else:
                want = {"unauthorized_client"}
            ctx.check(e in want, f"wrong error {e}", **info)
        ctx.outcome(f"refused:{error_of(resp)}")
        return
    rts = [t for t in w.issued if t["kind"] == "rt"]
    if ask == "client_credentials":
        ctx.check(not rts and "refresh_token" not in body(resp), "client_credentials issued a refresh token", **info)
    elif "refresh_token" not in grants:
        ctx.check(not rts and "refresh_token" not in body(resp), "a refresh token was issued to an unregistered client", **info)
    elif "refresh_token" in provider:
        ctx.check(len(rts) == 1 and body(resp).get("refresh_token") == rts[0]["token"], "no refresh token was issued", **info)
    ctx.outcome("granted:" + ask + (":rt" if rts else ""))


def authorize_case(ctx, provider, responses, ask, user, grants):
    w = build(ctx, provider, "client_secret_basic", grants, responses, False)
    w.codes.clear()
    p = w.auth_params("c", response_type=ask)
    resp = attempt(w, "authorize", w.auth_request(p, user))
    ctx.trace()
    ctx.state(provider, responses, ask, user, bool(grants))
    loc = location(resp) if resp is not None else None
    pairs = dict(added_pairs(loc, URI) or [])
    supported = ask == "code" and "authorization_code" in provider
    info = dict(provider=provider, client=responses, response_type=ask, user=user, location=loc)
    ok = bool(pairs.get("code"))
    ctx.check(ok == bool(w.codes), "code stored and code sent disagree", **info)
    ctx.check(ok == bool(supported and ask in responses and user), "a code was %s" % ("issued" if ok else "refused"), **info)
    if not ok and ask and user and resp is not None:
        want = "unauthorized_client" if supported else "unsupported_response_type"
        e = pairs.get("error")
        ctx.check(e == want or (not supported and e == "unauthorized_client" and ask not in responses),
                  f"wrong error {e}", **info)
    ctx.outcome("code" if ok else f"refused:{pairs.get('error')}")


hist.add(globals(), ["cb-no-code", "cb-no-cc", "cb-no-refresh", "cb-no-grants", "cb-no-response", "restore"],
         [n for n in hist.pick("authorize:cb:own", "cc:", "code-plain:", "refresh:") if n.startswith("authorize") or n.endswith("secret-b:basic")], view=lambda v: v)
