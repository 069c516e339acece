"""C10: endpoints always answer, never raise."""
import asyncio
import itertools

from mc import clock
from mc.loop import run
from mc.util import OAUTH_ERRORS
from mc.world import CHALLENGE, REQ, StorageFailure, World, header, location, make_request, query_of, strict_json
from psion.oauth2.models import Request, Response
from psion.oidc import AuthorizationCodeFlow

ID = "C10"
ASSUMPTIONS = ["requests are psion Request objects (GET or POST); the storage fails by raising an Exception",
               "get_consent_data is judged with the authorization endpoint"]
BOUNDS = {
    "quick": "12 valid baseline requests; every single deviation and every pair of deviations (20 values per parameter, 14 "
             "headers, 9 raw bodies, no user, deleted user); one storage fault at every storage call, before and after its "
             "effect, with 7 exception types",
    "thorough": "as quick plus all triples of deviations on 6 baselines and two storage faults",
}
VALUES = ["-", "", "x", "\u00e9\u6f22\U0001f600", "a" * 6000, "\x00", "%zz", " ", "None", "\r\nX: y", "*", "0", "a b", "&=",
          "\ud7ff\ufffd", "[]", "{}", "-1", "=cb", "dup"]
AUTHS = [None, "", " ", "Basic", "Basic ", "Basic x", "Basic " + "A" * 5000, "Basic OjpbXQ==", "Basic Og==", "Basic /w==",
         "Bearer t", "Bearer", "basic Y2I6c2VjcmV0LWI", "\u00e9"]
RAW = [b"", b"\xff\xfe", b"%ff=%fe", b"&&&", b"=&=", b"grant_type", b'{"grant_type": "x"}', b"a=" + b"%41" * 3000, None]
EXCS = [StorageFailure, KeyError, ValueError, TypeError, OSError, asyncio.TimeoutError, AttributeError]

BASELINES = ["authorize-get", "authorize-post", "authorize-oidc", "authorize-odd", "consent", "code-cb", "code-cp", "code-pub", "cc-cb",
             "refresh-cb", "refresh-pub", "revoke-cb", "revoke-pub"]


ODD_URI = "https://cb.example/\u00e9/\u6f22?a=\u00e9&b=%C3%A9"


def baseline(ctx, name):
    """(world, endpoint, query, form, headers, user)"""
    clock.set_now(clock.BASE)
    w = World(ctx, hooks=[("authorization_code", AuthorizationCodeFlow)])
    kind, _, who = name.partition("-")
    if kind in ("authorize", "consent"):
        p = w.auth_params("cb", scope="openid profile", nonce="n") if who == "oidc" else w.auth_params("cb")
        if who == "odd":
            w.clients["cb"].uris.append(ODD_URI)
            p["redirect_uri"] = ODD_URI
        if who == "post":
            return w, "authorize", {}, p, {}, "u1"
        return w, kind, p, {}, {}, "u1"
    if kind == "code":
        form = w.code_form("the-code", who)
        w.codes["the-code"] = {"client": who, "user": "u1", "redirect_uri": form["redirect_uri"], "scopes": ["openid", "profile"],
                               "challenge": CHALLENGE, "method": "S256", "nonce": "n", "auth_time": 0,
                               "expires": clock.NOW + 600}
    elif kind == "cc":
        form = {"grant_type": "client_credentials", "scope": "profile"}
    else:
        w.refresh["the-rt"] = {"token": "the-rt", "client": who, "user": "u1", "scopes": ["profile", "email"],
                               "expires": clock.NOW + 600}
        form = {"grant_type": "refresh_token", "refresh_token": "the-rt", "scope": "profile"}
        if kind == "revoke":
            form = {"token": "the-rt", "token_type_hint": "refresh_token"}
    f, h = w.client_auth(who, form)
    return w, ("revoke" if kind == "revoke" else "token"), {}, f, h, "u1"


def deviations(name):
    w, endpoint, query, form, headers, user = baseline(None, name)
    out = []
    for where, params in (("q", query), ("f", form)):
        for k in params:
            for v in range(len(VALUES)):
                out.append(["param", where, k, v])
    extra = {"authorize": ["nonce", "foo", "prompt"], "consent": ["foo"], "token": ["client_id", "client_secret", "code", "scope",
             "redirect_uri", "refresh_token"], "revoke": ["client_id", "client_secret"]}[endpoint]
    for k in extra:
        if k not in form and k not in query:
            for v in (2, 3, 5):
                out.append(["extra", "f" if form else "q", k, v])
    for i in range(len(AUTHS)):
        out.append(["auth", i])
    if endpoint not in ("consent",):
        for i in range(len(RAW)):
            out.append(["raw", i])
    out.append(["user"])
    out.append(["deluser"])
    out.append(["expired"])
    out.append(["get"])
    out.append(["badquery"])
    return out


def cases(tier):
    out = []
    for b in BASELINES:
        n = len(deviations(b))
        out.append(["dev", b, [], False])
        for i in range(n):
            out.append(["dev", b, [i], True])
    if tier == "thorough":
        for b in ("authorize-get", "code-cb", "code-pub", "cc-cb", "refresh-cb", "revoke-cb"):
            n = len(deviations(b))
            for i, j in itertools.combinations(range(0, n), 2):
                if i % 3 == 0:
                    out.append(["dev", b, [i, j], True])
    for b in BASELINES:
        for e in range(len(EXCS)):
            out.append(["fault", b, e])
    return out


def bound(tier, case):
    return 2 if tier == "thorough" else 1


def build(ctx, name, devs):
    w, endpoint, query, form, headers, user = baseline(ctx, name)
    query, form, headers = list(query.items()), list(form.items()), dict(headers)
    raw, verb, rawq = b"unset", None, None
    for d in devs:
        kind = d[0]
        if kind in ("param", "extra"):
            target = query if d[1] == "q" else form
            v = VALUES[d[3]]
            i = next((i for i, kv in enumerate(target) if kv[0] == d[2]), None)
            if kind == "extra" or i is None:
                target.append((d[2], v))
            elif v == "-":
                del target[i]
            elif v == "dup":
                target.append((d[2], "again"))
            else:
                target[i] = (d[2], "cb" if v == "=cb" else v)
        elif kind == "auth":
            headers.pop("Authorization", None)
            if AUTHS[d[1]] is not None:
                headers["Authorization"] = AUTHS[d[1]]
        elif kind == "raw":
            raw = RAW[d[1]]
        elif kind == "user":
            user = None
        elif kind == "deluser":
            w.users.pop("u1", None)
        elif kind == "expired":
            clock.set_now(clock.NOW + 10 ** 6)
        elif kind == "get":
            verb = "GET" if form else "POST"
        elif kind == "badquery":
            rawq = "%ff=%zz&;;&a&=b&%"
    from urllib.parse import urlencode
    if raw == b"unset":
        raw = urlencode(form).encode() if form else b""
    from mc.world import User
    req = make_request(verb or ("POST" if form else "GET"), "/x", headers=headers, user=User("u1") if user else None, raw=raw,
                       raw_query=rawq if rawq is not None else urlencode(query)) if raw is not None else \
        Request(method=verb or "POST", url="https://as.example/x?" + urlencode(query), headers=headers, body=None,
                user=User("u1") if user else None)
    return w, endpoint, req


def call(w, endpoint, req):
    token = REQ.set("r")
    try:
        if endpoint == "consent":
            return run(w.provider.authorize.get_consent_data(req))
        return run(getattr(w.provider, endpoint)(req))
    finally:
        REQ.reset(token)


def judge(ctx, w, endpoint, req, info, fault=False):
    try:
        resp = call(w, endpoint, req)
    except Exception as e:
        ctx.fail(f"the {endpoint} endpoint raised {type(e).__name__}: {e}"[:300], **info)
        return
    ctx.trace()
    fired = w.fault_fired if fault else None
    if endpoint == "consent" and isinstance(resp, dict):
        ctx.check(not fired, "a storage failure was reported as success", fault=fired, **info)
        ctx.outcome("consent")
        return
    ctx.check(isinstance(resp, Response), f"returned {type(resp).__name__}", **info)
    ctx.check(isinstance(resp.status_code, int) and isinstance(resp.body, bytes), "malformed response", **info)
    for k, v in resp.headers.items():
        ctx.check(isinstance(k, str) and isinstance(v, str) and not any(c in k + v for c in "\r\n\0"), "malformed header",
                  headers=repr(resp.headers), **info)
    if endpoint in ("authorize", "consent"):
        loc = location(resp)
        ctx.check(resp.status_code in (301, 302, 303, 307, 308) and bool(loc), "no redirect", status=resp.status_code, **info)
        pairs = query_of(loc)
        err = pairs.get("error")
        if fired:
            ctx.check(err == "server_error" and "code" not in pairs, "a storage failure was not reported as server_error",
                      location=loc, fault=fired, **info)
        elif "code" not in pairs:
            ctx.check(err in OAUTH_ERRORS and err not in ("server_error", "temporarily_unavailable"),
                      f"a request at fault got error {err}", location=loc, **info)
        ctx.outcome(f"{endpoint}:{err or 'code'}")
        ctx.state(endpoint, err, repr(info))
        return
    try:
        b = strict_json(resp.body)
    except ValueError:
        ctx.fail("the body is not JSON", body=repr(resp.body), **info)
        return
    ctx.check((header(resp, "content-type") or "").split(";")[0].strip() == "application/json", "not typed as JSON", **info)
    err = b.get("error") if isinstance(b, dict) else None
    if fired:
        ctx.check(err == "server_error" and resp.status_code >= 500, "a storage failure was not reported as server_error",
                  status=resp.status_code, body=b, fault=fired, **info)
    elif resp.status_code != 200:
        ctx.check(400 <= resp.status_code < 500, f"a request at fault got status {resp.status_code}", body=b, **info)
        ctx.check(err in OAUTH_ERRORS and err not in ("server_error", "temporarily_unavailable"),
                  f"a request at fault got error {err}", body=b, **info)
    else:
        ctx.check(err is None, "status 200 with an error", body=b, **info)
        ctx.check(endpoint == "revoke" or bool(b.get("access_token")), "success without a token", body=b, **info)
    ctx.outcome(f"{endpoint}:{resp.status_code}:{err}")
    ctx.state(endpoint, resp.status_code, err, repr(info))


_MENU = {}


def run_case(ctx, case):
    if case[0] == "fault":
        _, name, e = case
        w, endpoint, req = build(ctx, name, [])
        w.faults = True
        w.fault_exc = EXCS[e]
        judge(ctx, w, endpoint, req, dict(baseline=name, exception=EXCS[e].__name__), fault=True)
        return
    _, name, first, more = case
    if name not in _MENU:
        _MENU[name] = deviations(name)
    menu = _MENU[name]
    devs = [menu[i] for i in first]
    w, endpoint, req = build(ctx, name, devs)
    judge(ctx, w, endpoint, req, dict(baseline=name, deviations=devs))
    if more:
        for j in range(first[-1] + 1, len(menu)):
            d = devs + [menu[j]]
            w, endpoint, req = build(ctx, name, d)
            judge(ctx, w, endpoint, req, dict(baseline=name, deviations=d))
