"""C05: redirects return state and result parameters unaltered."""
import itertools

from mc import clock, coincide, consts
from mc.loop import run
from mc.near import LENGTHS, near, text
from mc.util import added_pairs, attempt, client
from mc.world import CHALLENGE, World, location
from psion.oidc import AuthorizationCodeFlow

ID = "C05"
ASSUMPTIONS = ["registered redirect URIs have no fragment (RFC 6749 section 3.1.2)",
               "an empty state parameter counts as no state"]
BOUNDS = {
    "quick": "states: every string of length 1..2 over a 34-character adversarial alphabet, every character U+0000..U+00FF "
             "and chosen others, 25 crafted strings; x 12 outcomes x 8 redirect URIs (lengths 2 on two URIs); GET and POST; "
             "adversarial scope and response_type values; states of 62 lengths up to 100,000; near misses of one state; 54 redirect URIs with every character a URI may contain",
    "thorough": "states up to length 3, all outcomes and URIs, every BMP character outside surrogates on two outcomes",
}
ALPHA = list("&=#?%+ /:;,\"'<>\\|@[]{}~^`!$()*aZ0") + ["\r", "\n", "\t", "\x00", "\u00e9", "\u6f22", "\U0001f600", "\x7f"]
CRAFTED = ["%41", "%26", "%", "%%", "%zz", "%2", "a b", "a+b", "a%20b", "a%2Bb", "x&code=evil", "x&error=evil", "x#code=1",
           "?state=other", "\r\nSet-Cookie: a=b", "\u2028", "\ufeff", "e\u0301", "null", "None", "0", "false", "a" * 3000,
           "&" * 50, "\U0010ffff", "../../", "javascript:alert(1)", "\u202e", "%0d%0a", "a=b&c=d;e=f", *consts.NEW_TEXTS, *(a + t + b for t in consts.NEW_TEXTS for a, b in (("x", ""), ("", "x"), ("x", "x")))]
URIS = ["https://c.example/cb", "https://c.example/cb?a=b", "https://c.example/cb?a=b&c=d%26e%3Df",
        "https://c.example/cb?x=%C3%A9+y", "https://c.example:8443/a/b/", "http://127.0.0.1/cb?empty=",
        "app.example:/cb", "https://c.example/cb?state=mine&code=own"]
# every character RFC 3986 allows, in the path and in the query, user information, an IPv6 host, other schemes
LEGAL = [u for c in "-._~!$&'()*+,;=:@/%?" for u in ("https://c.example/p" + ("%2Fx" if c == "%" else c + "x" if c != "?" else "?x"), "https://c.example/cb?q=a" + ("%41" if c == "%" else c) + "b")] + \
        ["https://user@c.example/cb", "https://user:pw@c.example/cb", "https://[::1]/cb", "https://[2001:db8::7]:8443/cb?q", "com.example.app:/oauth2redirect", "com.example.app://cb/x",
         "http://localhost:1/", "https://c.example", "https://c.example/?", "https://c.example/a//b/./../c", "https://xn--e1afmkfd.example/cb", "https://c.example/%7Ea/%c3%A9",
         "https://c.example/" + "p" * 3000, "https://c.example/cb?" + "&".join(f"k{i}=v{i}" for i in range(150))]
# outcome -> (expected error or None, changes to the parameters, user)
OUTCOMES = {
    "success": (None, {}, "u1"),
    "denied": ("access_denied", {}, None),
    "response_type": ("unsupported_response_type", {"response_type": "token"}, "u1"),
    "client_type": ("unauthorized_client", {"client_id": "tok"}, "u1"),
    "no_challenge": ("invalid_request", {"code_challenge": None}, "u1"),
    "short_challenge": ("invalid_request", {"code_challenge": "x"}, "u1"),
    "no_method": ("invalid_request", {"code_challenge_method": None}, "u1"),
    "bad_method": ("invalid_request", {"code_challenge_method": "x"}, "u1"),
    "no_scope": ("invalid_request", {"scope": None}, "u1"),
    "unsupported_scope": ("invalid_scope", {"scope": "profile root"}, "u1"),
    "forbidden_scope": ("invalid_scope", {"scope": "admin"}, "u1"),
    "consent": ("invalid_request", {"scope": None}, "u1"),
    "oidc": (None, {"scope": "openid profile", "nonce": "n"}, "u1"),
}


def cases(tier):
    out = []
    deep = tier == "thorough"
    for o in OUTCOMES:
        for i, uri in enumerate(URIS):
            out.append(["one", o, uri, "GET"])
            out.append(["one", o, uri, "POST"])
            if deep or i < 2:
                out.append(["two", o, uri, "GET"])
    for uri in URIS:
        out.append(["values", "", uri, "GET"])
        out.append(["nostate", "", uri, "GET"])
    out += [["uris", o, "", verb] for o in OUTCOMES for verb in ("GET", "POST")]
    for o in OUTCOMES:
        for verb in ("GET", "POST"):
            out.append(["long", o, URIS[1], verb])
            out.append(["near", o, URIS[1], verb])
    if deep:
        for o in ("success", "unsupported_scope"):
            for hi in range(0, 0x100):
                out.append(["plane", o, URIS[1], "GET", hi])
        for o in OUTCOMES:
            for a in ALPHA:
                out.append(["three", o, URIS[1], "GET", a])
    return out


_WORLD = {}


def world(ctx):
    clock.set_now(clock.BASE)
    if "w" not in _WORLD:
        cl = {"c": client("c", "s", "client_secret_basic", URIS + LEGAL, scopes=["openid", "profile"]),
              "tok": client("tok", "s", "client_secret_basic", URIS + LEGAL, responses=["token"])}
        _WORLD["w"] = World(None, clients=cl, hooks=[("authorization_code", AuthorizationCodeFlow)])
    w = _WORLD["w"]
    w.ctx = ctx
    w.codes.clear()
    w.log.clear()
    return w


def fire(ctx, outcome, uri, verb, state, over=None):
    err, changes, user = OUTCOMES[outcome]
    w = world(ctx)
    p = {"client_id": "c", "redirect_uri": uri, "response_type": "code", "code_challenge": CHALLENGE,
         "code_challenge_method": "S256", "scope": "profile", "state": state}
    p.update(changes)
    p.update(over or {})
    p = {k: v for k, v in p.items() if v is not None}
    req = w.auth_request(p, user, verb)
    try:
        if outcome == "consent":
            resp = run(w.provider.authorize.get_consent_data(req))
        else:
            resp = attempt(w, "authorize", req)
    except Exception:
        resp = None
    ctx.trace()
    if resp is None:
        ctx.outcome("raised")  # C10
        return
    ctx.check(not isinstance(resp, dict), "consent was not refused", state=state)
    loc = location(resp)
    info = dict(outcome=outcome, uri=uri, state=state, verb=verb, location=loc, over=over)
    ctx.check(isinstance(loc, str) and loc.isascii() and all(33 <= ord(c) < 127 for c in loc),
              "the Location has characters that do not belong in a URL", **info)
    ctx.check(resp.status_code in (302, 303), "the status does not make the user agent get the Location", status=resp.status_code, **info)
    for k, v in resp.headers.items():
        ctx.check(not any(c in str(k) + str(v) for c in "\r\n\0"), "a header was split", header=[k, v], **info)
    pairs = added_pairs(loc, uri)
    ctx.check(pairs is not None, "the redirect does not keep the redirect URI", **info)
    names = [k for k, _ in pairs]
    ctx.check(len(names) == len(set(names)), "a parameter appears twice", pairs=pairs, **info)
    got = dict(pairs)
    if err is None:
        ctx.check(len(w.codes) == 1 and got.get("code") in w.codes, "the code is not the one issued", pairs=pairs, **info)
        want = {"code": got["code"]}
        if state:
            want["state"] = state
        ctx.check(got == want, "the decoded parameters are not code and state", pairs=pairs, **info)
    else:
        ctx.check(got.get("error") == err, f"expected error {err}", pairs=pairs, **info)
        ctx.check(set(names) <= {"error", "error_description", "error_uri", "state"}, "foreign parameters", pairs=pairs,
                  **info)
        ctx.check(got.get("state") == (state or None), "state was lost or altered", pairs=pairs, **info)
    ctx.outcome(err or "code")


def run_case(ctx, case):
    kind, o, uri, verb = case[:4]
    if kind == "uris":
        for uri in LEGAL:
            for state in (None, "st", "a&b=c#?%+ \u00e9"):
                fire(ctx, o, uri, verb, state)
                ctx.state(o, uri, verb, state)
        return
    if kind == "one":
        for s in ALPHA + CRAFTED + [chr(i) for i in range(256)]:
            fire(ctx, o, uri, verb, s)
            ctx.state(o, uri, verb, s)
    elif kind == "two":
        for a, b in itertools.product(ALPHA, repeat=2):
            fire(ctx, o, uri, verb, a + b)
            ctx.state(o, uri, a + b)
    elif kind == "three":
        for a, b in itertools.product(ALPHA, repeat=2):
            fire(ctx, o, uri, verb, case[4] + a + b)
            ctx.state(o, uri, case[4] + a + b)
    elif kind == "plane":
        for lo in range(256):
            c = case[4] * 256 + lo
            if not 0xD800 <= c <= 0xDFFF:
                fire(ctx, o, uri, verb, chr(c))
                ctx.state(o, c)
    elif kind == "long":
        for n in LENGTHS:
            for s in (text(n), "&" + text(n - 1), text(n - 1) + "%") + ((("\u6f22" * n),) if n < 3000 else ()):
                fire(ctx, o, uri, verb, s)
            ctx.state(o, verb, n)
    elif kind == "near":
        for base in ("aB-9_z", "Z\u00fc state", "00123", "1e5", "true", "code"):
            for s in near(base):
                fire(ctx, o, uri, verb, s)
                ctx.state(o, verb, s)
    elif kind == "nostate":
        for oc in OUTCOMES:
            fire(ctx, oc, uri, verb, None)
            fire(ctx, oc, uri, verb, "")
            ctx.state(oc, uri)
    else:
        for v in ALPHA + CRAFTED:
            for s in ("st", "&\r\n%"):
                if set(v.split()) - {"openid", "profile"}:
                    fire(ctx, "unsupported_scope", uri, verb, s, {"scope": v})
                fire(ctx, "response_type", uri, verb, s, {"response_type": v})
                fire(ctx, "bad_method", uri, verb, s, {"code_challenge_method": v})
                fire(ctx, "oidc", uri, verb, s, {"nonce": v})
                ctx.state(uri, v, s)

coincide.add(globals(), coincide.authorize)
