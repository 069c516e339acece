"""C20: expired, premature or ill-typed claims are never accepted."""
import itertools
import json

from mc import clock, consts, ref
from mc.jose import call, jwt, psion_key
from mc.util import TZS
from psion.jose.exceptions import ExpiredToken, InvalidJWTClaim, JoseError, NotYetValidToken
from psion.jose.jwt import JsonWebToken, JsonWebTokenClaims

ID = "C20"
ASSUMPTIONS = ["a claim whose value is null counts as absent", "when several claims are at fault any of the corresponding errors may be raised",
               "the system clock of the host is right"]
ZONES = list(TZS) + ["CCC-5:30", "DDD+9:30", "EEE-12:45", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3"]
# ordinary, whole second, just before a second, both sides of DST changes (US 2024-11-03 and 2024-03-10, EU 2024-10-27), epoch, year 2040
INSTANTS = [clock.BASE, 1_700_000_000.0, 1_700_000_000.999999, 1730611800.5, 1730615400.5, 1730619000.0, 1710054000.0, 1710057600.25, 1729990800.5,
            1729994400.0, 3.5, 2208988800.75]
BOUNDS = {
    "quick": "exp, nbf, iat: 45 values (integers within 3 s of now, within 15 h in 30 min steps, 0, negative, huge; other types) each alone and all "
             "triples of 12; aud, iss, sub, jti: 24 values each alone and with the others; audiences of up to 1,001 entries with one of the 24 values at 5 positions; 8 time zones x 12 clock readings; claims object, token "
             "construction, decoding with and without signature validation",
    "thorough": "all triples of 24 values; all pairs of all claims over all values",
}
NULL = "absent"
WRONG = ["", "x", "1700000100", 1.5, 1e18, 1e9, 0.0, True, False, [], [1], {}, {"a": 1}, [4102444800], "4102444800"]
OTHERS = [NULL, "", "x", "\u00e9", "1", 0, 1, -1, 1.5, 0.0, True, False, [], {}, [""], ["x"], ["x", "y"], ["x", 1], [1], [None], [[]], [["x"]], [{}],
          ["x", True], ["x", ["y"]], {"x": 1}, *consts.NEW_TEXTS]


def ints(now, deep):
    n = int(now)
    out = [n + d for d in (-3, -2, -1, 0, 1, 2, 3)]
    out += [n + k * 1800 for k in range(-30, 31, 1 if deep else 3) if k]
    return out + [0, -1, 1, -10 ** 12, 10 ** 12, 2 ** 31, 2 ** 63, 10 ** 30, -10 ** 30] + sorted({v for c in consts.NEW_NUMBERS for d in (-1, 0, 1) for v in (c + d, n + c + d, n - c + d)})


def judge_claims(claims, now):
    """The set of acceptable errors; empty means the claims must be accepted."""
    errors = set()
    for name in ("exp", "nbf", "iat"):
        v = claims.get(name)
        if v is None:
            continue
        if type(v) is not int:
            errors.add(InvalidJWTClaim)
        elif name == "exp" and v <= now:
            errors.add(ExpiredToken)
        elif name == "nbf" and v > now:
            errors.add(NotYetValidToken)
        elif name == "iat" and v > now:
            errors.add(InvalidJWTClaim)
    aud = claims.get("aud")
    if aud is not None and not isinstance(aud, str):
        if not isinstance(aud, list) or any(not isinstance(a, str) for a in aud):
            errors.add(InvalidJWTClaim)
    for name in ("iss", "sub", "jti"):
        v = claims.get(name)
        if v is not None and not isinstance(v, str):
            errors.add(InvalidJWTClaim)
    return errors


def probe(ctx, claims, apis="cjd", tz=None):
    claims = {"x": 1, **{k: v for k, v in claims.items() if v is not NULL}}
    want = judge_claims(claims, clock.NOW)
    tok = None
    key = psion_key(ref.oct_key(0))
    for api in apis:
        src = json.loads(json.dumps(claims))
        if api == "c":
            kind, v = call(JsonWebTokenClaims, src)
        elif api == "j":
            kind, v = call(JsonWebToken, src, {"alg": "HS256"})
        else:
            tok = tok or ref.jws("HS256", ref.oct_key(0), {"alg": "HS256"}, json.dumps(claims).encode())
            kind, v = jwt(tok, key, "HS256", api == "d")
        ctx.trace()
        ctx.step()
        info = {"claims": claims, "now": clock.NOW, "tz": tz, "api": api}
        if want:
            ctx.check(kind != "ok", "unacceptable claims were accepted", expected=[e.__name__ for e in want], **info)
            ctx.check(kind == "jose" and isinstance(v, JoseError) and type(v) in want, "rejected for another reason", error=repr(v),
                      expected=[e.__name__ for e in want], **info)
            ctx.outcome(type(v).__name__)
        else:
            ctx.check(kind == "ok", "acceptable claims were rejected", error=repr(v), **info)
            got = dict(v if api == "c" else v.claims)
            ctx.check(got == claims, "the claims were altered", got=got, **info)
            ctx.outcome("accepted")
    ctx.state(json.dumps(claims, sort_keys=True), clock.NOW, tz)


def cases(tier):
    out = []
    for tz in ZONES:
        for i in range(len(INSTANTS)):
            out.append(["alone", tz, i])
    zones = ZONES if tier == "thorough" else [ZONES[0], ZONES[1], ZONES[2], ZONES[6]]
    for tz in zones:
        for i in range(len(INSTANTS)) if tier == "thorough" else (0, 1, 3):
            for e in range(24 if tier == "thorough" else 12):
                out.append(["triple", tz, i, e])
    for i in range(len(OTHERS)):
        out.append(["others", i])
    out.append(["audiences"])
    return out


def menu(now, deep):
    n = int(now)
    m = [NULL, n - 1, n, n + 1, 0, -1, n + 7200, n - 7200, "x", 1.5, True, ""]
    if deep:
        m += [n + 2, n + 50400, n - 50400, 10 ** 30, -10 ** 30, False, 0.0, [], {}, [1], float(n + 100), str(n + 100)]
    return m


def run_case(ctx, case):
    deep = ctx.tier == "thorough"
    try:
        if case[0] == "audiences":
            clock.set_now(clock.BASE)
            for n in (1, 2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 1000, 1001):
                for pos in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
                    for v in OTHERS:
                        if v is not NULL:
                            aud = [f"a{i}" for i in range(n)]
                            aud[pos] = v
                            probe(ctx, {"aud": aud}, "cj" if n > 100 else "cjdn")
            return
        if case[0] == "others":
            clock.set_now(clock.BASE)
            v = OTHERS[case[1]]
            for name in ("aud", "iss", "sub", "jti"):
                probe(ctx, {name: v}, "cjdn")
                for name2 in ("aud", "iss", "sub", "jti", "exp", "nbf", "iat"):
                    if name2 == name:
                        continue
                    n = int(clock.NOW)
                    second = OTHERS if name2 in ("aud", "iss", "sub", "jti") else [n - 5, n, n + 5, 0, "x", True, False]
                    for w in second:
                        probe(ctx, {name: v, name2: w}, "cd" if deep else "c")
                        probe(ctx, {name2: w, name: v}, "c")
            # near-miss names are ordinary claims
            for name in ("EXP", "Exp", "exp ", "expiry", "audience", "Nbf", "ISS", "sub_id"):
                probe(ctx, {name: v})
            return
        mode, tz, i = case[:3]
        clock.set_tz(tz)
        clock.set_now(INSTANTS[i])
        if mode == "alone":
            for name in ("exp", "nbf", "iat"):
                for v in ints(clock.NOW, deep) + WRONG:
                    probe(ctx, {name: v}, "cjdn", tz)
        else:
            m = menu(clock.NOW, deep)
            for b, c in itertools.product(m, repeat=2):
                probe(ctx, {"exp": m[case[3]], "nbf": b, "iat": c}, "cd", tz)
                probe(ctx, {"iat": c, "aud": ["a"], "nbf": b, "exp": m[case[3]]}, "c", tz)
    finally:
        clock.set_tz("UTC")
        clock.set_now(clock.BASE)
