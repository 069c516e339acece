"""C38: parameters that mean nothing have no effect."""
import itertools
from urllib.parse import urlencode

from mc import clock, consts, hist
from mc.checks import c10
from mc.near import near
from mc.world import User, make_request

ID = "C38"
ASSUMPTIONS = ["unrecognised: no parameter of OAuth 2.1, PKCE, token revocation or OpenID Connect",
               "unknown parameters are added without repeating a known one; repetition is not judged"]
BOUNDS = {
    "quick": "13 valid requests of all flows and 1 to 3 faulty variants of each; every single unknown parameter of 2,200 near misses of the real names, "
             "every text in the code under test and others (140 on faulty requests) x 3 positions x query or form, 1 to 5000 unknown parameters at once, 9 values up to 100,000 long; every order of the "
             "parameters (up to 7!); every parameter without a value against the parameter left out; 30 other headers",
    "thorough": "as quick, with pairs of unknown parameters",
}
KNOWN = {"client_id", "redirect_uri", "response_type", "code_challenge", "code_challenge_method", "scope", "state", "nonce", "grant_type", "code",
         "code_verifier", "client_secret", "refresh_token", "token", "token_type_hint", "prompt", "max_age", "display", "ui_locales", "id_token_hint",
         "login_hint", "acr_values", "response_mode", "claims", "request", "request_uri", "registration", "resource", "audience", "claims_locales",
         "client_assertion", "client_assertion_type", "assertion", "username", "password", "error", "error_description", "error_uri"}
OTHERS = ["foo", "x", "_", "0", "a.b", "a[]", "a[b]", "$where", "__class__", "__proto__", "self", "client", "user", "users", "data", "adapter", "config",
          "hook", "headers", "method", "url", "path", "query", "body", "form", "key", "keyset", "kid", "alg", "iss", "sub", "aud", "exp", "iat", "None",
          "null", "true", "secret", "id", "\u00e9", "\u6f22", "a b", "a+b", "a=b", "a&b", "utm_source", "csrf_token", "submit", "lang", "callback"]
VALUES = ["1", "x" * 5000, "\u00e9\u6f22", "a=b&c=d", "null", "[]", "../..", "<script>", "%00", *consts.NEW_TEXTS]
COUNTS = [*range(1, 70), 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2000, 5000, *consts.around(6000)]
HEADERS = {"Cookie": "session=1", "Origin": "https://evil.example", "Referer": "https://evil.example/x", "Accept": "text/html", "Accept-Language": "de",
           "User-Agent": "x" * 2000, "X-Forwarded-For": "10.0.0.1", "X-Forwarded-Host": "evil.example", "X-Forwarded-Proto": "http",
           "X-HTTP-Method-Override": "DELETE", "X-Requested-With": "XMLHttpRequest", "Content-Length": "7", "Connection": "close", "TE": "trailers",
           "X-Client-Id": "cp", "X-Client-Secret": "secret-p", "Client-Id": "cp", "X-User": "u2", "X-Remote-User": "u2", "Remote-User": "u2",
           "Proxy-Authorization": "Basic Y3A6c2VjcmV0LXA=", "X-Authorization": "Basic Y3A6c2VjcmV0LXA=", "Authentication": "Basic Y3A6c2VjcmV0LXA=",
           "Cache-Control": "only-if-cached", "If-None-Match": "*", "Range": "bytes=0-1", "Upgrade": "h2c", "Via": "1.1 x", "DNT": "1", "X": "",
           **{t: v for t in consts.NEW_TEXTS if t.isascii() and t.replace("-", "").isalnum() and t.lower() != "authorization" for v in ("1",)}}
FAULTS = {"authorize": [{"scope": "root"}, {"state": None, "response_type": "token"}, {"redirect_uri": "https://evil.example/"}],
          "consent": [{"redirect_uri": "https://evil.example/"}],
          "token": [{"grant_type": "password"}, {"client_secret": "wrong"}, {"scope": "root", "code_verifier": "y" * 43, "refresh_token": "none"}],
          "revoke": [{"token_type_hint": "x"}, {"client_secret": "wrong"}]}


def names(wide=True):
    out = list(OTHERS)
    for k in ("client_id", "redirect_uri", "scope", "state", "grant_type", "code", "code_verifier", "refresh_token", "token", "nonce", "client_secret"):
        out += (list(near(k)) if wide else []) + [k + "[]", k + "[0]", k + ".0", "x" + k, k + "s", "_" + k, k.replace("_", "-"), k.replace("_", ""), k.title()]
    out += sorted(consts.constants()[0] if wide else consts.NEW_TEXTS)  # whatever the code names anywhere
    return [n for n in dict.fromkeys(out) if n not in KNOWN and n and len(n) <= 60]


def cases(tier):
    out = []
    for b in c10.BASELINES:
        endpoint = start(b, 0)[1]
        for f in range(1 + len(FAULTS[endpoint])):
            for kind in ("single", "count", "value", "blank", "header"):
                out.append([kind, b, f, 0])
            if f < 2:
                n = len(start(b, f)[2])
                out += [["order", b, f, i] for i in range(n)]
            if tier == "thorough":
                out += [["pair", b, f, i] for i in range(0, len(names()), 10)]
    return out


def start(name, f, ctx=None):
    """(world, endpoint, parameters, headers, verb)"""
    w, endpoint, query, form, headers, user = c10.baseline(ctx, name)
    w.label_tokens = True
    params = dict(query or form)
    if f:
        for k, v in FAULTS[endpoint][f - 1].items():
            if k == "client_secret" and "Authorization" in headers:
                headers = {"Authorization": headers["Authorization"][:-4] + "AAAA"}
            elif v is None:
                params.pop(k, None)
            elif k in params:
                params[k] = v
    return w, endpoint, list(params.items()), headers, "POST" if form else "GET"


def send(ctx, name, f, pairs, headers=None, also=()):
    """pairs as query or form, `also` in the query of a POST request."""
    w, endpoint, _, own, verb = start(name, f, ctx)
    text = urlencode(pairs)
    kw = {"raw": text.encode(), "raw_query": urlencode(also)} if verb == "POST" else {"raw_query": text}
    req = make_request(verb, "/x", headers={**own, **(headers or {})}, user=User("u1"), **kw)
    return hist.observe(w, endpoint, req)


def run_case(ctx, case):
    kind, name, f, i = case
    clock.set_now(clock.BASE)
    pairs = start(name, f)[2]
    verb = start(name, f)[4]
    want = send(ctx, name, f, pairs)
    ctx.check(f > 0 or hist.served(want), "the plain request is refused", request=name, answer=want)
    info = dict(request=name, fault=f)

    def same(what, *args, **kw):
        got = send(ctx, name, f, *args, **kw)
        ctx.trace()
        ctx.check(got == want, what + " changed the answer or its effects", got=got, want=want, sent=urlencode(args[0])[:300], **info)

    if kind == "single":
        for n in names(f == 0 or ctx.tier == "thorough"):
            for v in ("1", "cp"):
                same("an unknown parameter", [(n, v), *pairs])
                same("an unknown parameter", [*pairs, (n, v)])
            same("an unknown parameter", [*pairs[:2], (n, "1"), *pairs[2:]])
            if verb == "POST":
                same("an unknown parameter in the query", pairs, also=[(n, "1")])
            ctx.state("single", name, f, n)
    elif kind == "count":
        for c in COUNTS:
            extra = [(f"p{k}", str(k)) for k in range(c)]
            same(f"{c} unknown parameters", [*pairs, *extra])
            same(f"{c} unknown parameters", [*extra, *pairs])
            if verb == "POST":
                same(f"{c} unknown parameters in the query", pairs, also=extra)
            ctx.state("count", name, f, c)
    elif kind == "value":
        for v in VALUES + ["x" * 100000]:
            for n in ("foo", "\u00e9", "n" * 3000):
                same("an unknown parameter", [*pairs, (n, v)])
            ctx.state("value", name, f, v[:20])
        same("a repeated unknown parameter", [("foo", "1"), *pairs, ("foo", "2"), ("foo", "")])
    elif kind == "blank":
        for k, (n, v) in enumerate(pairs):
            left_out = send(ctx, name, f, pairs[:k] + pairs[k + 1:])
            got = send(ctx, name, f, pairs[:k] + [(n, "")] + pairs[k + 1:])
            ctx.trace()
            ctx.check(got == left_out, "a parameter without a value is not treated as left out", parameter=n, got=got, want=left_out, **info)
            same("a known parameter without a value next to it", [(n, ""), *pairs])
        have = {n for n, _ in pairs}
        for n in ("nonce", "state", "scope", "client_id", "client_secret", "code", "redirect_uri", "code_verifier", "refresh_token", "token_type_hint"):
            if n not in have:
                same("a parameter without a value", [*pairs, (n, "")])
                ctx.state("blank", name, f, n)
    elif kind == "header":
        for h, v in HEADERS.items():
            same(f"the header {h}", pairs, headers={h: v})
            ctx.state("header", name, f, h)
        same("all headers", pairs, headers=HEADERS)
    elif kind == "order":
        rest = pairs[:i] + pairs[i + 1:]
        for p in itertools.permutations(rest):
            same("the order of the parameters", [pairs[i], *p])
        ctx.state("order", name, f, i)
    else:
        all_names = names()
        for n in all_names[i:i + 10]:
            for m in all_names[::3]:
                same("two unknown parameters", [(m, "1"), *pairs, (n, "cp")])
            ctx.state("pair", name, f, n)
    ctx.outcome(kind)
