"""C30: ID token claims are checked when read."""
import itertools
import json

from mc import clock
from mc.jose import call
from mc.util import TZS
from mc.checks.c20 import judge_claims
from psion.jose.exceptions import InvalidJWTClaim
from psion.oidc.claims import IDToken

ID = "C30"
ASSUMPTIONS = ["the request for max_age is a max_age member among the claims; the expected nonce is the nonce option, an empty one is none",
               "a claim whose value is null counts as absent", "a dictionary as nonce option is not judged"]
BOUNDS = {
    "quick": "full product of 18 auth_time values x 5 max_age values x 14 nonce values x 7 expected nonces x 14 sets of standard claims; 3 time zones; with "
             "and without further options; orders of members; histories of two claim sets sharing an options object",
    "thorough": "7 clock readings x 3 time zones, all pairs of standard claim sets",
}
ABSENT = "<absent>"
AUTH_TIMES = [ABSENT, None, 0, -1, 1, 1700000000, 4102444800, 10 ** 30, "", "1700000000", "x", 1.5, 1700000000.0, True, False, [], [1], {}]
MAX_AGES = [ABSENT, None, 0, 1, 3600]
NONCES = [ABSENT, None, "n", "N", "n ", " n", "nn", "", "x", 0, 1, ["n"], {"n": "n"}, "n\u0301"]
EXPECTED = [ABSENT, "n", "x", "", "n ", "\u00e9", "None"]


def standard(n):
    return [{}, {"sub": "s", "iss": "i", "aud": "a", "exp": n + 60, "iat": n, "nbf": n}, {"sub": "s", "exp": n}, {"exp": n - 1}, {"exp": 0}, {"nbf": n + 5}, {"iat": n + 5},
            {"exp": "x"}, {"aud": 5}, {"aud": ["a", 1]}, {"iss": 1}, {"sub": 0}, {"jti": []}, {"aud": ["a", "b"], "acr": "x", "amr": ["y"], "azp": "c"}]


def verdict(claims, expected, now):
    if judge_claims(claims, now):
        return False
    at = claims.get("auth_time")
    if at is not None and type(at) is not int:
        return False
    if claims.get("max_age") is not None and at is None:
        return False
    if expected is not ABSENT and expected and claims.get("nonce") != expected:
        return False
    return True


def cases(tier):
    out = []
    for tz in TZS:
        for i in range(7 if tier == "thorough" else (2 if tz == "UTC" else 1)):
            for s in range(14):
                for e in range(len(EXPECTED)):
                    out.append(["grid", tz, i, s, e])
    out += [["options"], ["orders"], ["shared"], ["shapes"]]
    return out


INSTANTS = [clock.BASE, 1_700_000_000.0, 1730611800.5, 1710054000.0, 1729990800.5, 3.5, 2208988800.75]


def probe(ctx, claims, expected, opts=None, ok=True, **info):
    src = json.loads(json.dumps(claims))
    options = dict(opts or {})
    if expected is not ABSENT:
        options["nonce"] = expected
    want = verdict(claims, expected, clock.NOW) and ok
    ctx.trace()
    ctx.step()
    args = (src, options) if options or info.get("empty_options") else (src,)
    kind, v = call(IDToken, *args)
    info.update(claims=claims, options=options, now=clock.NOW)
    ctx.check((kind == "ok") == want, "acceptable claims were rejected" if want else "unacceptable claims were accepted", error=repr(v), **info)
    ctx.check(want or kind == "jose", "rejected with an exception that is not a JOSE error", error=repr(v), **info)
    if want:
        ctx.check(dict(v) == {k: x for k, x in claims.items() if x is not None}, "the claims were altered", got=dict(v), **info)
        ctx.check(src == claims, "the caller's claims were changed", got=src, **info)
    ctx.outcome("accepted" if want else "rejected")


def build(at, ma, nonce, std):
    d = {"z": 1, **std}
    for k, v in (("auth_time", at), ("max_age", ma), ("nonce", nonce)):
        if v is not ABSENT:
            d[k] = v
    return d


def run_case(ctx, case):
    try:
        mode = case[0]
        clock.set_now(clock.BASE)
        n = int(clock.NOW)
        ctx.state(case)
        if mode == "grid":
            _, tz, i, s, e = case
            clock.set_tz(tz)
            clock.set_now(INSTANTS[i])
            std = standard(int(clock.NOW))[s]
            for at, ma, nonce in itertools.product(AUTH_TIMES, MAX_AGES, NONCES):
                probe(ctx, build(at, ma, nonce, std), EXPECTED[e], tz=tz)
                ctx.state(repr(at), repr(ma), repr(nonce), s, e, tz, i)
            if ctx.tier == "thorough":
                for other in standard(int(clock.NOW)):
                    for at, ma, nonce in itertools.product((ABSENT, 5, "x"), (ABSENT, 0), (ABSENT, "n", "x")):
                        probe(ctx, build(at, ma, nonce, {**other, **std}), EXPECTED[e], tz=tz)
        elif mode == "options":
            for exp, nonce in itertools.product(EXPECTED, NONCES):
                for opts, ok in (({"aud": {"value": "a"}}, True), ({"aud": {"value": "b"}}, False), ({"sub": {"essential": True}}, True), ({"azp": {"essential": True}}, False),
                                 ({"iss": {"values": ["i", "j"]}}, True), ({"iss": {"values": ["j"]}}, False), ({"acr": {"essential": False}}, True)):
                    for at in (ABSENT, 7, "x"):
                        probe(ctx, build(at, ABSENT, nonce, standard(n)[1]), exp, opts, ok)
        elif mode == "orders":
            items = [("auth_time", 5), ("max_age", 10), ("nonce", "n"), ("exp", n + 9)]
            bad = {"auth_time": "5", "nonce": "m", "exp": n - 9}
            for perm in itertools.permutations(items):
                probe(ctx, dict(perm), "n")
                for k, v in bad.items():
                    d = dict(perm)
                    d[k] = v
                    probe(ctx, d, "n")
                for drop in ("auth_time", "nonce"):
                    d = dict(perm)
                    del d[drop]
                    probe(ctx, d, "n")
        elif mode == "shared":
            # one options object, several claim sets one after another
            for e in ("n", "x"):
                for a, b in itertools.product(NONCES, repeat=2):
                    opts = {"nonce": e}
                    for nonce in (a, b):
                        c = build(5, ABSENT, nonce, {})
                        kind, v = call(IDToken, dict(c), opts)
                        ctx.trace()
                        ctx.check((kind == "ok") == (c.get("nonce") == e), "the verdict depends on an earlier claim set", claims=c, expected=e)
                    ctx.check(opts == {"nonce": e}, "the caller's options were changed", options=opts)
        else:
            for v in (None, {}, [], "", "x", 0, 1, [1], (("a", 1),), b"x"):
                kind, _ = call(IDToken, v)
                ctx.trace()
                ctx.check(kind == "jose", "something that is not a claim set was accepted or raised another exception", value=repr(v))
            for opts in (None, {}):
                kind, v = call(IDToken, {"sub": "x"}, opts)
                ctx.check(kind == "ok" and dict(v) == {"sub": "x"}, "claims were rejected without options", options=opts)
            ctx.check(issubclass(InvalidJWTClaim, Exception), "")
    finally:
        clock.set_tz("UTC")
        clock.set_now(clock.BASE)
