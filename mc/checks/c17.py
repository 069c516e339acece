"""C17: what is signed is what is read back."""
import datetime
import decimal
import fractions
import itertools
import json
import re
import uuid

from mc import consts, ref
from mc.jose import ALGS, call, jws, jwt, sign_key, verify_key
from mc.world import strict_json
from psion.jose.jws import JsonWebSignature
from psion.jose.jwt import JsonWebToken

ID = "C17"
ASSUMPTIONS = ["members whose value is null count as absent", "the empty claim set is not a claim set",
               "values without JSON form and text with lone surrogates may be refused by any exception, but never signed as something else",
               "registered claims, where used, have acceptable values"]
BOUNDS = {
    "quick": "HS256: all payloads of length <=1 and all over 8 adversarial octets up to length 4, every length 0..260 of 3 fillings, 5 large "
             "ones; all 12 algorithms: payloads over 8 octets up to length 2; claim sets: every JSON shape of nesting <=3 over 26 leaves at "
             "every position, 16 values without JSON form, all pairs of leaves, 60 claim names; headers of every combination of 5 optional parameters over several values",
    "thorough": "all payloads of length <=2; adversarial octets up to length 6; nesting <=4; all algorithms for claim sets",
}
OCTETS = b"\x00.=a\x7f\x80\xfb\xff"
LEAVES = [True, False, 0, 1, -1, 2 ** 31, 2 ** 53 + 1, 10 ** 30, -(2 ** 63), 0.0, 1.5, -0.1, 1e308, 5e-324, 0.1 + 0.2, "", "a", "\u00e9", "\u6f22\u5b57",
          "\U0001f600", "\x00\x1f\x7f", "\u2028\u2029", "\"\\/\b\n", "null", " ", [], {}, *consts.NEW_NUMBERS, *consts.NEW_TEXTS[:8]]
NAMES = ["a", "", " ", "sub2", "alg", "exp2", "\u00e9", "\U0001f600", "__class__", "0", "a.b", "\"", "\\", "\x00", "x" * 300, "get", "items", "self",
         "claims", "header", "https://example.com/claim", "NULL", "True", "\ufeff", "a\u0301", "$ref", "//", "<!--", "%41", "&amp;", *consts.NEW_TEXTS]
SEG = re.compile(rb"^[A-Za-z0-9_-]*\.[A-Za-z0-9_-]*\.[A-Za-z0-9_-]*$")


def shapes(depth, leaves):
    """JSON values of exactly the shapes up to a nesting depth, each leaf at each position."""
    out = list(leaves)
    level = list(leaves)
    for _ in range(depth):
        nxt = []
        for v in level:
            nxt += [[v], [1, v], {"k": v}, [v, None], {"k": v, "n": None}]
        out += nxt
        level = nxt
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for first in range(256):
        out.append(["octets", first])
    for n in range(0, 7 if deep else 5):
        for head in itertools.product(range(len(OCTETS)), repeat=min(n, 2)):
            out.append(["alphabet", n, list(head)])
    out.append(["empty"])
    for fill in (0, 65, 255):
        for lo in range(0, 261, 20):
            out.append(["length", fill, lo])
    out.append(["large"])
    for a in ALGS:
        for i in range(len(OCTETS)):
            out.append(["algs", a, i])
    for i in range(len(LEAVES)):
        for alg in ALGS if deep else ["HS256"]:
            out.append(["claims", i, alg])
    for alg in ALGS:
        out.append(["somealg", alg])
    for i in range(len(NAMES)):
        out.append(["names", i])
    for i in range(len(HEADS)):
        out.append(["headers", i])
    out.append(["foreign"])
    return out


def roundtrip(ctx, payload, header, alg):
    ctx.trace()
    ctx.step(2)
    src = json.loads(json.dumps(header))
    kind, tok = call(lambda: JsonWebSignature(payload, header).serialize(sign_key(alg, **({"kid": header["kid"]} if "kid" in header else {}))))
    info = {"payload": payload[:300], "header": src, "alg": alg}
    ctx.check(kind == "ok", "serializing failed", error=repr(tok), **info)
    ctx.check(isinstance(tok, bytes) and SEG.match(tok), "not three unpadded URL-safe segments", token=repr(tok)[:2000], **info)
    h, p, _ = tok.split(b".")
    ctx.check(strict_json(ref.unb64(h)) == src, "the first segment is not the header", got=ref.unb64(h), **info)
    ctx.check(ref.unb64(p) == payload, "the second segment is not the payload", got=ref.unb64(p)[:300], **info)
    for pin in (alg, None):
        for validate in (True, False):
            kind, v = jws(tok, verify_key(alg, **({"kid": header["kid"]} if "kid" in header else {})), pin, validate)
            ctx.check(kind == "ok", "deserializing failed", error=repr(v), token=tok[:2000], **info)
            ctx.check(type(v.payload) is bytes and v.payload == payload, "another payload was read back", got=repr(v.payload)[:300], **info)
            ctx.check(same(dict(v.header), src), "another header was read back", got=repr(dict(v.header)), **info)
    return tok


def same(a, b):
    """Equality that tells 1 from True and 1.0."""
    if type(a) is not type(b) and not (isinstance(a, dict) and isinstance(b, dict)) and not (isinstance(a, list) and isinstance(b, list)):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b and repr(a) == repr(b)


def claims_trip(ctx, claims, alg="HS256", header=None):
    ctx.trace()
    ctx.step(2)
    header = header or {"alg": alg}
    want = {k: json.loads(json.dumps(v)) for k, v in claims.items() if v is not None}
    info = {"claims": json.dumps(claims)[:1500], "alg": alg}
    kind, tok = call(lambda: JsonWebToken(claims, dict(header)).encode(sign_key(alg)))
    ctx.check(kind == "ok", "encoding failed", error=repr(tok), **info)
    ctx.check(isinstance(tok, str) and SEG.match(tok.encode()), "not three unpadded URL-safe segments of text", token=repr(tok)[:2000], **info)
    h, p, _ = tok.split(".")
    ctx.check(strict_json(ref.unb64(h)) == header, "the first segment is not the header", got=ref.unb64(h), **info)
    ctx.check(same(strict_json(ref.unb64(p)), want), "the second segment is not the claims", got=ref.unb64(p)[:1500], **info)
    for form in (tok, tok.encode()):
        for pin, validate in ((alg, True), (None, True), (None, False)):
            kind, v = jwt(form, verify_key(alg), pin, validate)
            ctx.check(kind == "ok", "decoding failed", error=repr(v), **info)
            ctx.check(same(dict(v.claims), want), "other claims were read back", got=repr(dict(v.claims))[:1500], **info)
            ctx.check(same(dict(v.header), header), "another header was read back", got=repr(dict(v.header)), **info)


HEADS = []
for kid in (None, "k1", "\u00e9\u6f22", "k" * 500, "a\"b\\c"):
    for typ in (None, "JWT", "at+jwt"):
        for cty in (None, "JWT"):
            for x in (None, 0, "", False, [], {"a": [1, {"b": "\U0001f600"}]}, "x5"):
                for order in (0, 1):
                    HEADS.append((kid, typ, cty, x, order))


FOREIGN = {"bytes": b"ab", "set": {1}, "datetime": datetime.datetime(2020, 1, 1), "date": datetime.date(2020, 1, 1), "decimal": decimal.Decimal("1.5"),
           "object": object(), "complex": 1j, "type": int, "range": range(3), "surrogate": "a\ud800b", "surrogate2": "\udfff", "frozenset": frozenset(),
           "bytearray": bytearray(b"x"), "fraction": fractions.Fraction(1, 2), "uuid": uuid.UUID(int=5), "exception": ValueError("x")}


def run_foreign(ctx):
    """What has no JSON form is refused, or at least not turned into something else."""
    for name, v in FOREIGN.items():
        for claims in ({"a": v}, {"a": [v]}, {"a": {"b": v}}, {"sub": "s", "a": v, "z": 1}, {"a": [1, {"b": [v]}]}):
            kind, tok = call(lambda: JsonWebToken(claims, {"alg": "HS256"}).encode(sign_key("HS256")))
            ctx.trace()
            if kind == "ok":
                kind, t = jwt(tok, verify_key("HS256"), "HS256")
                ctx.check(kind != "ok" or dict(t.claims) == claims, "a value without JSON form was signed as something else", value=name,
                          claims=repr(claims), got=repr(kind == "ok" and dict(t.claims)))
            ctx.outcome("foreign value " + ("kept" if kind == "ok" else "refused"))
        for head in ({"alg": "HS256", "x": v}, {"alg": "HS256", "x": [v]}):
            kind, tok = call(lambda: JsonWebSignature(b"p", head).serialize(sign_key("HS256")))
            ctx.trace()
            if kind == "ok":
                kind, t = jws(tok, verify_key("HS256"), "HS256")
                ctx.check(kind != "ok" or dict(t.header) == head, "a value without JSON form was signed as something else", value=name, header=repr(head))
        if name.startswith("surrogate"):
            for claims in ({v: 1}, {"a": {v: 1}}):
                kind, tok = call(lambda: JsonWebToken(claims, {"alg": "HS256"}).encode(sign_key("HS256")))
                if kind == "ok":
                    kind, t = jwt(tok, verify_key("HS256"), "HS256")
                    ctx.check(kind != "ok" or dict(t.claims) == claims, "a name without UTF-8 form was signed as something else", claims=repr(claims))
        ctx.state("foreign", name)


def run_case(ctx, case):
    mode = case[0]
    if mode == "foreign":
        return run_foreign(ctx)
    if mode == "octets":
        o = case[1]
        todo = [bytes([o])]
        if ctx.tier == "thorough":
            todo += [bytes([o, x]) for x in range(256)]
        for p in todo:
            roundtrip(ctx, p, {"alg": "HS256"}, "HS256")
            ctx.state(p)
    elif mode == "alphabet":
        _, n, head = case
        pre = bytes(OCTETS[i] for i in head)
        for rest in itertools.product(OCTETS, repeat=n - len(head)):
            roundtrip(ctx, pre + bytes(rest), {"alg": "HS256", "typ": "JWT"}, "HS256")
            ctx.state(pre + bytes(rest))
    elif mode == "empty":
        for alg in ALGS:
            roundtrip(ctx, b"", {"alg": alg}, alg)
            ctx.state(alg)
    elif mode == "length":
        for n in range(case[2], case[2] + 20):
            roundtrip(ctx, bytes([case[1]]) * n, {"alg": "HS512"}, "HS512")
            ctx.state(n, case[1])
    elif mode == "large":
        for n in (1000, 4096, 65535, 65536, 200001, *consts.around(300000)):
            roundtrip(ctx, bytes(i * 7 % 256 for i in range(n)), {"alg": "HS384"}, "HS384")
            ctx.state(n)
    elif mode == "algs":
        for rest in itertools.chain([()], itertools.product(OCTETS, repeat=1)):
            p = bytes([OCTETS[case[2]]]) + bytes(rest)
            roundtrip(ctx, p, {"typ": "JOSE", "alg": case[1]}, case[1])
            ctx.state(case[1], p)
    elif mode == "claims":
        alg = case[2]
        for v in shapes(4 if ctx.tier == "thorough" and alg == "HS256" else 3 if alg == "HS256" else 1, [LEAVES[case[1]]]):
            claims_trip(ctx, {"c": v}, alg)
            ctx.state(repr(v), alg)
        for other in LEAVES:
            claims_trip(ctx, {"c": LEAVES[case[1]], "d": other, "e": None}, alg)
            claims_trip(ctx, {"sub": "s", "iss": "i", "aud": ["a", "b"], "jti": "", "iat": 5, "nbf": -1, "exp": 2 ** 40,
                              "c": {"x": [LEAVES[case[1]], other]}}, alg)
            ctx.state(repr((LEAVES[case[1]], other)), alg)
    elif mode == "somealg":
        for v in LEAVES:
            claims_trip(ctx, {"c": [v, {"k": v}], "d": v}, case[1])
            ctx.state(case, repr(v))
    elif mode == "names":
        for v in LEAVES:
            claims_trip(ctx, {NAMES[case[1]]: v, "z": {NAMES[case[1]]: v}})
            ctx.state(case, repr(v))
        for other in NAMES:
            claims_trip(ctx, {NAMES[case[1]]: 1, other: "two"})
    else:
        kid, typ, cty, x, order = HEADS[case[1]]
        items = [("alg", "HS256"), ("kid", kid), ("typ", typ), ("cty", cty), ("x", x)]
        head = {k: v for k, v in (reversed(items) if order else items) if v is not None}
        roundtrip(ctx, b"payload", head, "HS256")
        if not kid:
            claims_trip(ctx, {"a": 1}, "HS256", head)
        ctx.state(case)
