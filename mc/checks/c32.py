"""C32: authorization headers are parsed exactly."""
import base64
import itertools

from mc import consts
from mc.jose import call
from psion.webtools import get_basic_authorization, get_bearer_authorization

ID = "C32"
ASSUMPTIONS = ["the client ID has no colon (RFC 7617)", "credentials are UTF-8", "headers are looked up under authorization and Authorization; other letter case is the "
               "request's concern (C29)", "white space around or inside the Base64 text or the token, padding omitted, and empty IDs or secrets may be accepted "
               "or not, but credentials returned are those encoded"]
BOUNDS = {
    "quick": "Basic: all secrets of up to 3 characters over 18 characters and every BMP character, 14 IDs; 9 spellings of scheme, 2 header names; Bearer: all "
             "tokens of up to 3 characters over 16 characters and realistic ones; 90 malformed values x 2 readers; every single-octet change of a valid header",
    "thorough": "secrets of up to 4 characters",
}
CHARS = ["a", ":", " ", "%", "+", "&", "=", "/", "\\", '"', "\u00e9", "\u6f22", "\U0001d11e", "\0", "\n", "\t", "~", "\u00ff"]
IDS = ["c", "client", "a b", "cl%3Aient", "\u00e9", "\u6f22\u5b57", "c/d+e=", "\0", "C", "123", "\n", "None", "a@b", "x" * 300, *(t for t in consts.NEW_TEXTS if ":" not in t), *("x" * n for n in consts.around(20000))]
SCHEMES = ["Basic", "basic", "BASIC", "bAsIc", "bASIC"]
BEARERS = ["Bearer", "bearer", "BEARER", "bEaReR"]
NAMES = ["authorization", "Authorization"]
TOKEN_CHARS = list("aZ09-._~+/=") + [":", ",", ";", "%", "!"]


def b64(s):
    return base64.b64encode(s.encode()).decode()


def basic(ctx, cid, secret, scheme="Basic", name="authorization", **extra):
    h = {name: f"{scheme} {b64(cid + ':' + secret)}", **extra}
    kind, v = call(get_basic_authorization, h)
    ctx.trace()
    ctx.step()
    ctx.check(kind == "ok" and isinstance(v, tuple) and v == (cid, secret), "other credentials were read", header=h, want=[cid, secret], got=repr(v))
    kind, v = call(get_bearer_authorization, h)
    ctx.check(kind == "ok" and v is None, "a Bearer token was read from Basic credentials", header=h, got=repr(v))


def bearer(ctx, token, scheme="Bearer", name="authorization", **extra):
    h = {name: f"{scheme} {token}", **extra}
    kind, v = call(get_bearer_authorization, h)
    ctx.trace()
    ctx.step()
    ctx.check(kind == "ok" and v == token, "another token was read", header=h, want=token, got=repr(v))
    kind, v = call(get_basic_authorization, h)
    ctx.check(kind == "ok" and v == (None, None), "Basic credentials were read from a Bearer token", header=h, got=repr(v))


def decoded(value):
    """What a lenient reader could make of a header value: None (certainly nothing) or the pair."""
    parts = value.split(None, 1)
    if len(parts) != 2 or parts[0].lower() != "basic":
        return None
    t = "".join(parts[1].split()).rstrip("=")
    try:
        raw = base64.b64decode(t + "=" * (-len(t) % 4), validate=True).decode("utf-8")
    except ValueError:
        return None
    return tuple(raw.split(":", 1)) if ":" in raw else None


GOOD = "Y2xpZW50OnNlY3JldA=="
MALFORMED = ["", " ", "Basic", "Basic ", "Basic  ", " Basic", "Bearer", "Bearer ", "basic", GOOD, "Basic" + GOOD, "Basic:" + GOOD, "Basic=" + GOOD, "Basic," + GOOD,
             "Digest " + GOOD, "Negotiate " + GOOD, "Basi " + GOOD, "Basicx " + GOOD, "xBasic " + GOOD, "Basic\u00e9 " + GOOD, "Token " + GOOD, "Basic client:secret",
             "Basic !!!!", "Basic ====", "Basic =", "Basic A", "Basic AAAAA", "Basic " + GOOD[:-1], "Basic " + GOOD[:-2], "Basic " + GOOD + "=", "Basic " + GOOD + "!",
             "Basic " + GOOD + GOOD, "Basic -_-_", "Basic \u00e9\u00e9\u00e9\u00e9", "Basic \u6f22\u5b57", "Basic " + "A" * 4001, "Basic \0", "Basic " + b64("nocolon"), "Basic " + b64("a"),
             "Basic " + b64("client;secret"), "Basic " + b64("client secret"), "Basic " + base64.b64encode(b"\xff\xfe:\xfd").decode(),
             "Basic " + base64.b64encode(b"\xff\xfe").decode(), "Basic " + base64.b64encode(b"\xc3\x28").decode(), "Basic " + GOOD + " " + GOOD, "Basic " + GOOD + ",",
             "Basic realm=x", "Basic \"" + GOOD + "\"", "Basic {}", "Basic None", "Basic null", "Bearer\ttoken"[:6], "Basic\n", "\tBasic", "Basic %59", "Basic  =",
             "basic " + GOOD[::-1] + "!", "=", ":", "a:b", "a b c", "  ", "\n", "Bearer\n", "BasicBasic " + GOOD, "Basic-" + GOOD, "\u00a0", "Basic\u00a0" + GOOD + "!", "\x1f", "Basic \x1f"]
NOT_TEXT = [None, 0, 1, True, [], ["Basic " + GOOD], {}, b"", b"Basic " + GOOD.encode(), ("Basic", GOOD), 1.5, object()]


def cases(tier):
    out = [["ids", i] for i in range(len(IDS))] + [["secrets", i] for i in range(len(CHARS))] + [["chars", i] for i in range(0, 0x10000, 0x1000)]
    out += [["tokens", i] for i in range(len(TOKEN_CHARS))] + [["malformed"], ["mutate"], ["headers"]]
    return out


def run_case(ctx, case):
    ctx.state(case)
    mode = case[0]
    deep = ctx.tier == "thorough"
    if mode == "ids":
        cid = IDS[case[1]]
        secrets = ["s", ":", "::", ":a:", "a:b:c", "p\u00e4ss \u6f22", "=+/%&", "x" * 1000, " ", " s ", "\n", "Basic x", "None", GOOD, *consts.NEW_TEXTS, *("y" * n for n in consts.around(20000))]
        for s, scheme, name in itertools.product(secrets, SCHEMES, NAMES):
            basic(ctx, cid, s, scheme, name)
    elif mode == "secrets":
        first = CHARS[case[1]]
        for n in range(4 if deep else 3):
            for rest in itertools.product(CHARS, repeat=n):
                basic(ctx, "client", first + "".join(rest))
    elif mode == "chars":
        for cp in range(case[1], case[1] + 0x1000):
            if 0xD800 <= cp < 0xE000:
                continue
            c = chr(cp)
            basic(ctx, "client", "a" + c)
            if c != ":":
                basic(ctx, c + "x", c)
    elif mode == "tokens":
        first = TOKEN_CHARS[case[1]]
        for n in range(4 if deep else 3):
            for rest in itertools.product(TOKEN_CHARS, repeat=n):
                bearer(ctx, first + "".join(rest))
        for t in ("2YotnFZFEjr1zCsicMWpAA", "eyJhbGciOiJIUzI1NiJ9.e30.c2ln", "mF_9.B5f-4.1JqM", "x" * 5000, GOOD, "Basic", "bearer", "a:b"):
            for scheme, name in itertools.product(BEARERS, NAMES):
                bearer(ctx, first + t, scheme, name)
    elif mode == "malformed":
        for v in MALFORMED:
            for name in NAMES:
                nothing(ctx, v, name)
        for v in NOT_TEXT:
            for name in NAMES:
                for fn, none in ((get_basic_authorization, (None, None)), (get_bearer_authorization, None)):
                    kind, got = call(fn, {name: v})
                    ctx.trace()
                    ctx.check(kind == "ok" and got == none, "credentials were read, or an exception raised", value=repr(v), got=repr(got))
    elif mode == "mutate":
        for scheme in ("Basic ", "Bearer "):
            whole = scheme + GOOD
            for i in range(len(whole)):
                for c in ["", " ", "!", "A", "=", ":", "\n", "\0", "\u00e9", "-"]:
                    nothing(ctx, whole[:i] + c + whole[i + 1:], "authorization", judge_any=True)
                    nothing(ctx, whole[:i] + c + whole[i:], "authorization", judge_any=True)
                nothing(ctx, whole[:i], "authorization", judge_any=True)
                nothing(ctx, whole[i:], "authorization", judge_any=True)
    else:
        for h in ({}, {"x": "y"}, {"authentication": "Basic " + GOOD}, {"proxy-authorization": "Basic " + GOOD}, {"cookie": "Basic " + GOOD}, {"authorization ": "Basic " + GOOD}):
            for fn, none in ((get_basic_authorization, (None, None)), (get_bearer_authorization, None)):
                kind, got = call(fn, h)
                ctx.trace()
                ctx.check(kind == "ok" and got == none, "credentials were read from another header", headers=h, got=repr(got))
        basic(ctx, "client", "s", **{"x-other": "Bearer t"})
        bearer(ctx, "tok", **{"proxy-authorization": "Basic " + GOOD})
        h = {"authorization": "Basic " + GOOD}
        get_basic_authorization(h)
        ctx.check(h == {"authorization": "Basic " + GOOD}, "the headers were changed")
        # the readers keep nothing between calls
        for a, b in itertools.product(["Basic " + b64("a:b"), "Basic " + b64("c:d"), "Bearer x", "junk", None], repeat=2):
            for v in (a, b, a):
                h = {} if v is None else {"authorization": v}
                want = (None, None) if v is None or not v.startswith("Basic") else decoded(v)
                ctx.trace()
                ctx.check(call(get_basic_authorization, h) == ("ok", want), "the reading depends on earlier ones", sequence=[a, b, a])


def nothing(ctx, v, name, judge_any=False):
    """A malformed value: nothing is read, or at most what is really encoded in it."""
    ctx.trace()
    ctx.step()
    could = decoded(v)
    kind, got = call(get_basic_authorization, {name: v})
    ctx.check(kind == "ok" and got in ((None, None), could), "a malformed header gave credentials or an exception", value=v, got=repr(got))
    parts = v.split(None, 1)
    tok = parts[1] if len(parts) == 2 and parts[0].lower() == "bearer" else None
    kind, got = call(get_bearer_authorization, {name: v})
    ctx.check(kind == "ok" and (got is None or tok is not None and (got == tok or got == tok.strip())), "a malformed header gave a token or an exception", value=v, got=repr(got))
