"""C26: header parameters are validated and critical ones understood."""
import itertools
import json

from mc import consts, ref
from mc.jose import ALGS, call, jws, jwt, psion_key, verify_key
from psion.jose.jws import JsonWebSignature, JsonWebSignatureHeader
from psion.jose.jwt import JsonWebToken

ID = "C26"
ASSUMPTIONS = ["crit naming a parameter that RFC 7515 registers (alg, kid, typ, jku, ...) is not judged when that parameter is present and not empty",
               "a null extension parameter is not judged on its own"]
BOUNDS = {
    "quick": "alg: 13 supported, 60 near misses and other shapes; kid, typ, cty: 25 values each alone and all triples of 9; crit: all lists of "
             "length <=3 over 12 names with every subset of 4 extension parameters present (falsy values too), 25 other shapes, 26 names that resemble registered ones, lists of up to 1000 names with one offender at 5 positions; through the header "
             "object, JWS and JWT construction and deserializing correctly signed tokens, with and without validation, 12 algorithms",
    "thorough": "crit lists of length <=4",
}
REGISTERED = {"alg", "jku", "jwk", "kid", "x5u", "x5c", "x5t", "x5t#S256", "x5tS256", "typ", "cty", "crit"}
SHAPES = [None, "x", "", " ", "\u00e9", "0", 0, 1, -1, 1.5, 0.0, True, False, [], ["x"], [["x"]], {}, {"x": "x"}, [1], ["x", "y"], "x" * 1000, b"x".decode(), "null",
          "\x00", "JWT"]
BAD_ALG = ["", " ", "hs256", "HS256 ", " HS256", "HS256\x00", "HS-256", "HS1", "HS", "HS257", "RS1", "ES256K", "EdDSA", "dir", "A128KW", "RSA-OAEP", "NONE",
           "None", "nOne", "null", "*", "HS256,RS256", "HMAC", "SHA256", "__class__", "HS\u0662\u0665\u0666", "\u041d\u0405256", 0, 1, 256, 1.5, True, False, [],
           ["HS256"], ["HS256", "none"], {}, {"HS256": 1}, [[]], None, "PS", "ES", "RS256RS256", "PKCS1v15", "algorithm", "keys", "HS256\n", "\ufeffHS256", *(t for t in consts.NEW_TEXTS if t not in ALGS)]
NEAR_NAMES = ["KID", "Typ", "kid ", " kid", "kid\x00", "k-id", "kid#", "CTY", "JKU", "x5t#S256 ", "x5t#s256", "X5C", "crit ", "Crit", "typ2", "typ\u200b",
              "\u212aid", "kid\n", "alg.", "algorithm", "signature", "sign", "header", "fromkeys", "copy", "items", *consts.NEW_TEXTS]
NAMES = ["alg", "typ", "ext", "exp", "b64", "https://e.example/x", "missing", "Alg", "get", "crit", "init", "x"]
EXTS = ["ext", "exp", "b64", "https://e.example/x", "get", "init"]


def cases(tier):
    out = [["alg"]]
    out += [["alg-ok", a] for a in ALGS + ["none"]]
    for n in ("kid", "typ", "cty"):
        out.append(["param", n])
    for i in range(9):
        out.append(["triple", i])
    deep = tier == "thorough"
    for n in range(1, 5 if deep else 4):
        for first in NAMES:
            out.append(["crit", n, first])
    out.append(["crit-shapes"])
    out.append(["crit-near"])
    out.append(["crit-long"])
    for a in ALGS:
        out.append(["crit-token", a])
    out.append(["objects"])
    return out


def ok_string(v):
    return isinstance(v, str) and v != ""


def verdict(h):
    """True / False / None (not judged)."""
    if not isinstance(h, dict) or not h:
        return False
    if not isinstance(h.get("alg"), str) or h["alg"] not in ALGS + ["none"]:
        return False
    for n in ("kid", "typ", "cty"):
        if n in h and not ok_string(h[n]):
            return False
    if "crit" in h:
        c = h["crit"]
        if not isinstance(c, list) or not c or any(not ok_string(x) for x in c):
            return False
        if any(x not in h for x in c):
            return False
        if any(x not in REGISTERED for x in c):
            return False
        return None
    return True


def probe(ctx, header, sign=False, apis=True):
    want = verdict(header)
    ctx.trace()
    ctx.step()

    def judge(api, res):
        kind, v = res
        info = {"header": header, "api": api, "error": repr(v)[:300]}
        if want is None:
            return kind, v
        ctx.check((kind == "ok") == want, "an acceptable header was rejected" if want else "an unacceptable header was accepted", **info)
        ctx.check(kind != "other", "rejected with an exception that is not a JOSE error", **info)
        return kind, v

    kind, v = judge("header", call(JsonWebSignatureHeader, json.loads(json.dumps(header))))
    if kind == "ok" and want:
        ctx.check(dict(v) == header, "the header was altered", header=header, got=dict(v))
    if apis:
        judge("jws object", call(JsonWebSignature, b"p", json.loads(json.dumps(header))))
        judge("jwt object", call(JsonWebToken, {"sub": "x"}, json.loads(json.dumps(header))))
    if sign:
        for alg in ([header["alg"]] if isinstance(header, dict) and header.get("alg") in ALGS else ["HS256"]):
            extra = {"kid": header["kid"]} if isinstance(header, dict) and ok_string(header.get("kid")) else {}
            tok = ref.jws(alg, ref.key_for(alg), json.dumps(header).encode(), b'{"sub":"x"}')
            key = verify_key(alg, **extra)
            for validate in (True, False):
                if want is False or (want and header["alg"] != "none"):
                    judge(f"jws {validate}", jws(tok, key, None, validate))
                    judge(f"jwt {validate}", jwt(tok, key, None, validate))
                    if want is False:
                        judge(f"jws pinned {validate}", jws(tok, key, alg, validate))
    ctx.outcome({True: "accepted", False: "rejected", None: "not judged"}[want])
    ctx.state(json.dumps(header, sort_keys=True, default=repr))


def run_case(ctx, case):
    mode = case[0]
    if mode == "alg":
        for a in BAD_ALG:
            probe(ctx, {"alg": a}, True)
            probe(ctx, {"typ": "JWT", "alg": a}, True)
        for h in ({"typ": "JWT"}, {"Alg": "HS256"}, {"x": 1}, {"algorithm": "HS256"}, {"kid": "k", "typ": "JWT"}):
            probe(ctx, h, True)
    elif mode == "alg-ok":
        for h in ({}, {"typ": "JWT"}, {"x": [1]}, {"kid": "k"}, {"cty": "JWT", "typ": "x"}):
            probe(ctx, {"alg": case[1], **h}, True)
            probe(ctx, {**h, "alg": case[1]}, True)
    elif mode == "param":
        for v in SHAPES:
            for a in ("HS256", "RS256", "ES256", "none"):
                probe(ctx, {"alg": a, case[1]: v}, a != "none")
                probe(ctx, {case[1]: v, "alg": a, "x": v}, a != "none")
    elif mode == "triple":
        m = ["<absent>", None, "x", "", 0, ["x"], True, {}, "JWT"]
        for t, c in itertools.product(m, repeat=2):
            h = {"alg": "HS256", "kid": m[case[1]], "typ": t, "cty": c}
            probe(ctx, {k: v for k, v in h.items() if v != "<absent>"}, True)
    elif mode == "crit":
        _, n, first = case
        for rest in itertools.product(NAMES, repeat=n - 1):
            crit = [first, *rest]
            for r in range(0, 3):
                for present in itertools.combinations(EXTS, r):
                    vals = (1, False, 0, "", None) if n == 1 else ("v", False)
                    for val in vals:
                        h = {"alg": "HS256", "typ": "JWT", **{p: val for p in present}, "crit": crit}
                        if val is None and present:
                            # a null parameter: crit naming it is unacceptable either way
                            if not any(c in present or c not in REGISTERED for c in crit):
                                continue
                        probe(ctx, h, n == 1, n <= 2)
    elif mode == "crit-shapes":
        for v in ["exp", "", 0, 1, True, False, {}, {"exp": 1}, [], [""], [0], [1], [None], [[]], [["exp"]], [{}], [True], [False], ["exp", 1], [1, "exp"],
                  ["exp", ""], ["", "exp"], ["exp", None], 1.5, ["exp", ["exp"]], [" "], ["exp "], ["EXP"], ["\x00"]]:
            for extra in ({}, {"exp": 1}, {"exp": 1, "": 1}, {"exp": False}, {"EXP": 1}):
                probe(ctx, {"alg": "HS256", **extra, "crit": v}, True)
                probe(ctx, {"crit": v, **extra, "alg": "RS256"}, True)
    elif mode == "crit-near":
        # names that only resemble registered ones, alone and beside the registered one
        for name in NEAR_NAMES:
            for val in ("v", 1, True, ["x"]):
                for extra in ({}, {"kid": "k"}, {"kid": "k", "typ": "JWT", "cty": "x"}):
                    for crit in ([name], ["alg", name], [name, "alg"], *([["kid", name], [name, "kid"]] if extra else [])):
                        probe(ctx, {"alg": "HS256", **extra, name: val, "crit": crit}, True)
    elif mode == "crit-long":
        # one offender anywhere in a long list of otherwise registered names
        for n in (2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000, *consts.around(3000, 2)):
            for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
                for bad in ("ext", "missing", "", 1, None):
                    crit = ["alg", "typ"] * (n // 2 + 1)
                    crit = crit[:n]
                    crit[pos] = bad
                    probe(ctx, {"alg": "HS256", "typ": "JWT", "ext": "v", "crit": crit}, True)
            exts = {f"e{i}": "v" for i in range(n)}
            probe(ctx, {"alg": "HS256", **exts, "crit": list(exts)}, True)
            probe(ctx, {"alg": "HS256", **exts}, True)
    elif mode == "crit-token":
        for name in EXTS + ["_crit", "__init__", "algorithm", "validate", "alg2", "kid2", "nonce", "url", "\u00e9"]:
            for val in (1, True, False, "", "v", [], {}):
                for place in (0, 1):
                    for crit in ([name], ["alg", name], [name, "typ"], [name, name], ["typ", "alg", name]):
                        h = {"alg": case[1], "typ": "JWT", name: val}
                        h = {"crit": crit, **h} if place else {**h, "crit": crit}
                        probe(ctx, h, place == 0 and len(crit) < 3, False)
    else:
        for h in (None, [], {}, "", "x", 1, [["alg", "HS256"]], b"", True, (), 0):
            ctx.trace()
            kind, v = call(JsonWebSignatureHeader, h)
            ctx.check(kind == "jose", "not a header", header=repr(h), got=repr(v))
        for h in (None, [], {}, "", "x", 1, True, [1], "alg"):
            tok = ref.jws("HS256", ref.oct_key(0), json.dumps(h).encode(), b'{"sub":"x"}')
            for validate in (True, False):
                ctx.trace()
                ctx.check(jws(tok, psion_key(ref.oct_key(0)), None, validate)[0] == "jose", "a token without a header object was accepted", header=repr(h))
            ctx.state(repr(h))
