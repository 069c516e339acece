"""Coinciding values: names, secrets, URIs, codes and tokens that happen to be the same text.

Every value of a small scenario with two clients, two users, two codes and two refresh tokens is a field. For
every set of <=3 (thorough: 4) fields, and for the largest sets, these fields all get one and the same value,
chosen such that it is acceptable for each of them; what is true of the request must not depend on it.
"""
import hashlib
import itertools

from . import clock, ref
from .util import added_pairs, attempt, client
from .world import ERROR_URL, World, basic, body, error_of, granted, location, make_request, strict_json
from psion.oidc import AuthorizationCodeFlow

DEFAULT = {"client": "client-a", "other": "client-b", "secret": "secret-a", "secret2": "secret-b", "uri": "https://a.example/cb", "uri2": "https://b.example/cb",
           "user": "user-a", "user2": "user-b", "state": "state-1", "nonce": "nonce-1", "scope": "profile", "verifier": "verifier-" + "v" * 40,
           "code": "code-a", "code2": "code-b", "rt": "refresh-a", "rt2": "refresh-b", "token": None, "issuer": "https://as.example"}
APART = [{"client", "other"}, {"user", "user2"}, {"code", "code2"}, {"rt", "rt2"}, {"rt", "token"}, {"rt2", "token"}]
URI = "https://same.example/cb/0123456789-0123456789-0123456789"
TEXT = "same-0123456789-0123456789-0123456789-0123456789"
ONLY_URI = {"uri", "uri2", "issuer"}


def allowed(s):
    return not any(a <= s for a in APART)


def subsets(tier):
    fields = list(DEFAULT)
    for n in range(1, 5 if tier == "thorough" else 4):
        for s in itertools.combinations(fields, n):
            if allowed(set(s)):
                yield list(s)
    for drop in itertools.product(*[sorted(a) for a in APART[:4]]):
        big = [f for f in fields if f not in drop]
        yield [f for f in big if f != "token"]
        yield [f for f in big if f not in ("rt", "rt2")]


def variants(s):
    """(value, authentication method) pairs that suit these fields."""
    yield URI, "client_secret_post"
    yield URI, "none"
    if not ONLY_URI & set(s):
        yield TEXT, "client_secret_basic"
        yield TEXT, "client_secret_post"


def values(s, same):
    return {f: same if f in s else v for f, v in DEFAULT.items()}


def world(ctx, v, method, hooks=()):
    clock.set_now(clock.BASE)
    scopes = ["openid", v["scope"], "admin"]
    cl = {v[i]: client(v[i], None if method == "none" else v[s], method, [v[u]], scopes=["openid", v["scope"]])
          for i, s, u in (("client", "secret", "uri"), ("other", "secret2", "uri2"))}
    w = World(ctx, clients=cl, users=(v["user"], v["user2"]), scopes=scopes, issuer=v["issuer"], hooks=hooks)
    w.token_value = v["token"]
    for code, c, u, uri in (("code", "client", "user", "uri"), ("code2", "other", "user2", "uri2")):
        w.codes[v[code]] = {"client": v[c], "user": v[u], "redirect_uri": v[uri], "scopes": ["openid", v["scope"]], "challenge": challenge(v["verifier"]),
                            "method": "S256", "nonce": v["nonce"], "auth_time": 0, "expires": clock.NOW + 600}
    for rt, c, u in (("rt", "client", "user"), ("rt2", "other", "user2")):
        w.refresh[v[rt]] = {"token": v[rt], "client": v[c], "user": v[u], "scopes": [v["scope"]], "expires": clock.NOW + 600}
    return w


def challenge(verifier, method="S256"):
    return ref.b64(hashlib.sha256(verifier.encode()).digest()) if method == "S256" else verifier


def texts(v):
    return sorted({x for x in v.values() if x})


def tokens_for(w, who, user, scopes):
    return all((t["client"], t["owner"], sorted(t["scopes"])) == (who, user, sorted(scopes)) for t in w.issued) and [t["kind"] for t in w.issued] == ["at", "rt"]


def authorize(ctx, v, method, info):
    for pkce, nonce, fault in itertools.product(("S256", "plain"), (True, False), (None, "scope", "user")):
        w = world(ctx, v, method, [("authorization_code", AuthorizationCodeFlow)])
        w.codes.clear()
        p = {"response_type": "code", "client_id": v["client"], "redirect_uri": v["uri"], "code_challenge": challenge(v["verifier"], pkce),
             "code_challenge_method": pkce, "scope": "openid " + (v["scope"] if fault != "scope" else "nonsense"), "state": v["state"]}
        if nonce:
            p["nonce"] = v["nonce"]
        resp = attempt(w, "authorize", w.auth_request(p, None if fault == "user" else v["user"]))
        ctx.trace()
        pairs = added_pairs(location(resp), v["uri"]) if resp is not None else None
        ctx.check(pairs is not None and len(dict(pairs)) == len(pairs), "not redirected to the client", location=resp and location(resp), **info)
        pairs = dict(pairs)
        ctx.check(pairs.get("state") == v["state"], "the state was lost", pairs=pairs, **info)
        if fault:
            ctx.check(pairs.get("error") == {"scope": "invalid_scope", "user": "access_denied"}[fault] and not w.codes and "code" not in pairs, "wrong error", pairs=pairs, **info)
            continue
        ctx.check(set(pairs) == {"code", "state"} and set(w.codes) == {pairs["code"]}, "no code", pairs=pairs, **info)
        rec = w.codes[pairs["code"]]
        want = {"client": v["client"], "user": v["user"], "redirect_uri": v["uri"], "scopes": ["openid", v["scope"]], "challenge": p["code_challenge"], "method": pkce,
                "nonce": v["nonce"] if nonce else None}
        ctx.check({k: rec[k] for k in want} == want, "the code is not bound to the request", record=rec, expected=want, **info)
    for who, uri in itertools.product(("client", "other"), ("uri", "uri2")):
        w = world(ctx, v, method)
        w.codes.clear()
        p = {"response_type": "code", "client_id": v[who], "redirect_uri": v[uri], "code_challenge": challenge(v["verifier"]), "code_challenge_method": "S256",
             "scope": v["scope"], "state": v["state"]}
        resp = attempt(w, "authorize", w.auth_request(p, v["user2"]))
        ctx.trace()
        good = v[uri] in w.clients[v[who]].uris
        loc = location(resp) if resp is not None else ""
        ctx.check(bool(w.codes) == good and (good or loc.startswith(ERROR_URL)), "wrong answer for another client's URI", client=v[who], uri=v[uri], location=loc, **info)


def consent(ctx, v, method, info):
    for who, uri, scope in itertools.product(("client", "other"), ("uri", "uri2"), ("scope", "admin")):
        w = world(ctx, v, method)
        from .loop import run
        s = v["scope"] if scope == "scope" else "admin"
        p = {"response_type": "code", "client_id": v[who], "redirect_uri": v[uri], "scope": "openid " + s, "state": v["state"]}
        try:
            got = run(w.provider.authorize.get_consent_data(w.auth_request(p, v["user"])))
        except Exception:
            got = None
        ctx.trace()
        if v[uri] in w.clients[v[who]].uris:
            ctx.check(isinstance(got, dict) and got["client"].id == v[who] and [x.name if hasattr(x, "name") else str(x) for x in got["scopes"]] ==
                      ["openid"] + ([s] if scope == "scope" else []), "wrong consent data", client=v[who], uri=v[uri], got=repr(got), **info)
        else:
            ctx.check(not isinstance(got, dict), "consent data for another client's URI", client=v[who], uri=v[uri], got=repr(got), **info)


def redeem(ctx, v, method, info):
    for who, code, uri, gone in itertools.product(("client", "other"), texts(v), ("uri", "uri2"), (None, "user", "user2")):
        w = world(ctx, v, method)
        if gone:
            w.users.pop(v[gone])
        rec = w.codes.get(code)
        if rec is None and (uri == "uri2" or gone):
            continue
        resp = attempt(w, "token", w.token_request(w.code_form(code, v[who], redirect_uri=v[uri], code_verifier=v["verifier"]), v[who]))
        ctx.trace()
        ok = rec is not None and rec["client"] == v[who] and rec["redirect_uri"] == v[uri] and rec["user"] in w.users
        more = dict(client=v[who], code=code, uri=v[uri], gone=gone, record=rec, issued=w.issued, response=resp and repr(resp.body), **info)
        ctx.check(granted(resp) == ok, "a code was %s" % ("refused" if ok else "redeemed"), **more)
        ctx.check(tokens_for(w, v[who], rec["user"], rec["scopes"]) if ok else not w.issued, "wrong tokens", **more)


def pkce(ctx, v, method, info):
    for m in ("S256", "plain"):
        c = challenge(v["verifier"], m)
        for x in texts(v) + [c, challenge(c)]:
            w = world(ctx, v, method)
            w.codes[v["code"]].update(challenge=c, method=m)
            resp = attempt(w, "token", w.token_request(w.code_form(v["code"], v["client"], code_verifier=x), v["client"]))
            ctx.trace()
            ok = challenge(x, m) == c
            ctx.check(granted(resp) == ok and bool(w.issued) == ok, "a verifier was %s" % ("refused" if ok else "accepted"), verifier=x, challenge=c, transform=m, **info)


def authenticate(ctx, v, method, info):
    for cid, secret, how in itertools.product((v["client"], v["other"], v["user"], v["secret"], v["rt"]), texts(v) + [None], ("basic", "post")):
        if how == "basic" and (":" in cid or secret is None):
            continue
        for bare in (False, True) if method != "none" else (False,):
            present(ctx, v, method, cid, secret, how, bare, info)


def present(ctx, v, method, cid, secret, how, bare, info):
    w = world(ctx, v, method)
    if bare:  # registered without a secret: there is no right one
        for c in w.clients.values():
            c.secret = None
    form = {"grant_type": "client_credentials", "scope": v["scope"]}
    if how == "basic":
        req = make_request("POST", "/token", form=form, headers={"Authorization": basic(cid, secret)})
    else:
        req = make_request("POST", "/token", form={**form, "client_id": cid, **({"client_secret": secret} if secret else {})})
    resp = attempt(w, "token", req)
    ctx.trace()
    c = w.clients.get(cid)
    ok = c is not None and secret is not None and c.secret == secret and c.method == "client_secret_" + how
    more = dict(client=cid, secret=secret, how=how, registered_without_secret=bare, issued=w.issued, **info)
    ctx.check(granted(resp) == ok, "a client was %s" % ("refused" if ok else "accepted"), **more)
    if not ok:
        ctx.check(not w.issued and (resp is None or error_of(resp) == "invalid_client"), "wrong answer", **more)
    else:
        ctx.check([(t["client"], t["owner"]) for t in w.issued] == [(cid, cid)], "a token for somebody else", **more)


def refresh(ctx, v, method, info):
    for who, rt, gone in itertools.product(("client", "other"), texts(v), (None, "user", "user2")):
        w = world(ctx, v, method)
        if gone:
            w.users.pop(v[gone])
        rec = w.refresh.get(rt)
        resp = attempt(w, "token", w.token_request({"grant_type": "refresh_token", "refresh_token": rt}, v[who]))
        ctx.trace()
        ok = rec is not None and rec["client"] == v[who] and rec["user"] in w.users
        more = dict(client=v[who], token=rt, gone=gone, record=rec, issued=w.issued, **info)
        ctx.check(granted(resp) == ok, "a refresh token was %s" % ("refused" if ok else "accepted"), **more)
        ctx.check(tokens_for(w, v[who], rec["user"], rec["scopes"]) if ok else not w.issued, "wrong tokens", **more)


def scope(ctx, v, method, info):
    for x, extra in itertools.product(texts(v), ("", "admin", v["scope"])):
        w = world(ctx, v, method)
        asked = [x] + extra.split()
        resp = attempt(w, "token", w.token_request({"grant_type": "refresh_token", "refresh_token": v["rt"], "scope": " ".join(asked)}, v["client"]))
        ctx.trace()
        ok = set(asked) <= {v["scope"]}
        more = dict(scope=asked, allowed=v["scope"], issued=w.issued, **info)
        ctx.check(granted(resp) == ok and bool(w.issued) == ok, "a scope was %s" % ("refused" if ok else "accepted"), **more)
        if ok:
            ctx.check(all(set(t["scopes"]) == {v["scope"]} for t in w.issued), "other scopes", **more)
        elif resp is not None:
            ctx.check(error_of(resp) == "invalid_scope", "wrong error", error=error_of(resp), **more)


def revoke(ctx, v, method, info):
    for who, token, hint in itertools.product(("client", "other"), texts(v), (None, "refresh_token", v["rt"])):
        w = world(ctx, v, method)
        resp = attempt(w, "revoke", w.token_request({"token": token, **({"token_type_hint": hint} if hint else {})}, v[who], "/revoke"))
        ctx.trace()
        ok = hint in (None, "refresh_token")
        more = dict(client=v[who], token=token, hint=hint, revoked=w.revoked, response=resp and [resp.status_code, repr(resp.body)], **info)
        ctx.check(w.revoked == ([(v[who], token, hint)] if ok else []), "revoked something else", **more)
        ctx.check(resp is not None and resp.status_code == (200 if ok else 400), "wrong status", **more)


def id_token(ctx, v, method, info):
    for nonce, pkce_, more in itertools.product((True, False), ("S256", "plain"), ({}, EXTRA)):
        w = world(ctx, v, method, [("authorization_code", AuthorizationCodeFlow)])
        p = {"response_type": "code", "client_id": v["client"], "redirect_uri": v["uri"], "code_challenge": challenge(v["verifier"], pkce_),
             "code_challenge_method": pkce_, "scope": "openid " + v["scope"], "state": v["state"], **more}
        if nonce:
            p["nonce"] = v["nonce"]
        before = set(w.codes)
        attempt(w, "authorize", w.auth_request(p, v["user"]))
        new = set(w.codes) - before
        ctx.check(len(new) == 1, "no code", **info)
        resp = attempt(w, "token", w.token_request(w.code_form(new.pop(), v["client"], redirect_uri=v["uri"], code_verifier=v["verifier"]), v["client"]))
        ctx.trace()
        ctx.check(granted(resp) and "id_token" in body(resp), "no ID token", **info)
        b = body(resp)
        claims = strict_json(ref.unb64(b["id_token"].split(".")[1]))
        d = hashlib.sha256(b["access_token"].encode()).digest()
        want = {"iss": v["issuer"], "aud": v["client"], "iat": int(clock.NOW), "exp": int(clock.NOW) + 36000, "at_hash": ref.b64(d[:16]), "sub": v["user"]}
        if nonce:
            want["nonce"] = v["nonce"]
        if v["scope"] == "profile":
            want["profile_info"] = f"profile of {v['user']}"
        ctx.check(claims == want, "the claims are not the truth", claims=claims, expected=want, params=p, **info)


EXTRA = {"prompt": "login", "max_age": "60", "display": "page", "ui_locales": "en", "login_hint": "user-b", "acr_values": "1", "id_token_hint": "x.y.z",
         "response_mode": "query", "claims": "{}", "auth_time": "5", "sub": "user-b", "aud": "client-b", "iss": "https://evil.example"}


def add(module, *steps):
    """Extends a check module by these steps over all sets of coinciding values."""
    cases, run_case, bound = module["cases"], module["run_case"], module.get("bound")

    def new_cases(tier):
        alls = list(subsets(tier))
        n = max(1, len(alls) // (256 if tier == "thorough" else 64))
        return cases(tier) + [["coinciding-values", alls[i:i + n]] for i in range(0, len(alls), n)]

    def new_run(ctx, case):
        if case[0] != "coinciding-values":
            return run_case(ctx, case)
        for s in case[1]:
            for same, method in variants(s):
                v = values(s, same)
                for step in steps:
                    step(ctx, v, method, dict(coinciding=s, value=same, method=method))
                ctx.state("coinciding", tuple(s), same, method)

    module.update(cases=new_cases, run_case=new_run)
    if bound:
        module["bound"] = lambda tier, case: None if case[0] == "coinciding-values" else bound(tier, case)
    for tier, n in (("quick", 3), ("thorough", 4)):
        module["BOUNDS"][tier] += f"; every set of <={n} and the largest sets of 18 names, secrets, URIs, codes and tokens being the same text"
