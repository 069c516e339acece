"""C34: JOSE operations do not influence one another."""
import copy
import functools
import itertools
import json
import os
import tempfile

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

from mc import clock, ref
from mc.jose import call
from mc.threads import run_threads
from psion.jose.exceptions import ExpiredToken, InvalidJWTClaim
from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.jose.jws import JsonWebSignature, JsonWebSignatureHeader
from psion.jose.jwt import JsonWebToken, JsonWebTokenClaims

ID = "C34"
ISOLATE = True
ASSUMPTIONS = ["threads switch only between lines of the library (a line and what it calls outside the library is one step)",
               "nested values inside the result of dump may be shared with the key; they are not modified here",
               "a signature object may share the header object (not a plain dictionary) it was made from"]
BOUNDS = {
    "quick": "50 operations on shared keys, headers, claims, options, tokens: all sequences of <=3 (of 3 over 24 of them), each result and all shared inputs examined "
             "after every operation; all pairs of 18 operations and of those with their twin of the same key identifier in two threads under every schedule with <=1 preemption at the lines of the "
             "library",
    "thorough": "all sequences of 3; pairs of all operations with <=1 and of 10 operations with <=2 preemptions; triples of 6 operations with <=1",
}
NOW = int(clock.BASE)
CLAIMS = {"iss": "https://as.example", "sub": "u1", "aud": ["a", "b"], "exp": NOW + 100, "nested": {"list": [1, {"x": "y"}]}}
OPTIONS = {"iss": {"essential": True, "value": "https://as.example"}, "aud": {"values": ["c", "b", "a"]},
           "sub": {"essential": True, "values": ["u9", "u1", "a"]}}
OTHER = {"sub": {"essential": True, "value": "u2"}}


class Pool:
    """The objects that all operations share."""

    def __init__(self):
        clock.set_now(clock.BASE)
        self.r = {"k1": ref.oct_key(0), "k2": ref.oct_key(1), "rsa": ref.rsa_key(0), "rsa2": ref.rsa_key(1), "ec": ref.ec_key("P-256"),
                  "ec2": ref.ec_key("P-256", "plain2"), "ec5": ref.ec_key("P-521")}
        self.jwk = {n: k.jwk(False, kid=n, custom={"deep": [1, 2]}) for n, k in self.r.items()}
        for twin, n, other in TWINS:  # other keys of the same identifier
            self.r[twin] = self.r[other]
            self.jwk[twin] = self.r[other].jwk(False, kid=n)
        self.r["bare"], self.jwk["bare"] = self.r["k1"], self.r["k1"].jwk(False)
        self.r["bare2"], self.jwk["bare2"] = self.r["k2"], self.r["k2"].jwk(False)
        self.keys = {n: JsonWebKey(d) for n, d in self.jwk.items()}
        self.pub = {n: JsonWebKey(k.jwk(True, kid=self.jwk[n]["kid"])) for n, k in self.r.items() if k.kty != "oct"}
        self.set = JsonWebKeySet([self.keys[n] for n in ("k1", "rsa", "ec")])
        self.header = {"alg": "HS256", "typ": "JWT", "kid": "k1", "extra": {"a": [1]}}
        self.hobj = JsonWebSignatureHeader(self.header)
        self.claims, self.options, self.other = copy.deepcopy((CLAIMS, OPTIONS, OTHER))
        self.payload = b"shared payload"
        self.jws = JsonWebSignature(self.payload, {"alg": "HS256"})
        self.jwt = JsonWebToken(self.claims, self.header)
        self.tok = {}
        text = json.dumps(CLAIMS).encode()
        for alg, n in SIGNED:
            self.tok[alg, n] = signed(alg, n, text)
        self.tok["HS256", "bare"] = ref.jws("HS256", self.r["k1"], {"alg": "HS256"}, text)
        self.expired = signed("HS256", "k1", json.dumps({"exp": NOW}).encode())
        self.before = copy.deepcopy(self.snapshot())

    def snapshot(self):
        return (self.jwk, self.header, dict(self.hobj), self.claims, self.options, self.other, self.payload, dict(self.jws.header),
                self.jws.payload, dict(self.jwt.header), dict(self.jwt.claims), self.tok, {n: k.data for n, k in self.keys.items()},
                {n: k.data for n, k in self.pub.items()}, [k.data["kid"] for k in self.set.keys])

    def intact(self):
        after = self.snapshot()
        for a, b in zip(self.before, after):
            if a != b:
                return f"{a!r} became {b!r}"[:600]
        return None


_TOKENS = {}
_POOL = None


def pool():
    """One pool per process: it is found intact after every execution, so the next one may go on with it."""
    global _POOL
    if _POOL is None:
        _POOL = Pool()
    return _POOL


def signed(alg, n, payload):
    key = (alg, n, payload)
    if key not in _TOKENS:
        k = {"k1": ref.oct_key(0), "k2": ref.oct_key(1), "rsa": ref.rsa_key(0), "ec": ref.ec_key("P-256"), "ec5": ref.ec_key("P-521")}[n]
        _TOKENS[key] = ref.jws(alg, k, {"alg": alg, "kid": n}, payload)
    return _TOKENS[key]


@functools.lru_cache(maxsize=None)
def ec_public(k):
    curve = {"P-256": ec.SECP256R1, "P-521": ec.SECP521R1}[k.crv]()
    return ec.EllipticCurvePublicNumbers(k.nums["x"], k.nums["y"], curve).public_key(default_backend())


def genuine(alg, k, msg, sig):
    if k.kty != "EC":
        return ref.verify(alg, k, msg, sig)
    size = ref.CURVES[k.crv].size  # the reference's own arithmetic is too slow for so many executions
    if len(sig) != 2 * size:
        return False
    der = encode_dss_signature(int.from_bytes(sig[:size], "big"), int.from_bytes(sig[size:], "big"))
    try:
        ec_public(k).verify(der, msg, ec.ECDSA({"ES256": hashes.SHA256, "ES512": hashes.SHA512}[alg]()))
    except InvalidSignature:
        return False
    return True


def good(p, token, alg, key, payload, header=None):
    """None if token is a right signature made with that key."""
    token = token if isinstance(token, bytes) else token.encode()
    try:
        h, b, s = token.split(b".")
        head = json.loads(ref.unb64(h))
        if not genuine(alg, p.r[key], h + b"." + b, ref.unb64(s)):
            return "the signature is not that of the key"
        if ref.unb64(b) != payload if isinstance(payload, bytes) else json.loads(ref.unb64(b)) != payload:
            return "another payload was signed"
        if header is not None and head != header:
            return f"another header was signed: {head}"
        return None if head["alg"] == alg else "another algorithm"
    except ValueError as exc:
        return f"malformed token: {exc}"


def sign(alg, key):
    def op(p):
        head = {"alg": alg, "kid": p.jwk[key].get("kid", "any")}
        if "kid" not in p.jwk[key]:
            del head["kid"]
        return good(p, JsonWebSignature(b"p:" + key.encode(), head).serialize(p.keys[key]), alg, key, b"p:" + key.encode(), head)
    return op


def verify(alg, key, with_key=None, pin=None, ok=True, tamper=False):
    def op(p):
        t = p.tok[alg, key]
        if tamper:
            h, b, s = t.split(b".")
            t = b".".join([h, b[:-1] + (b"A" if b[-1:] != b"A" else b"B"), s])
        name = with_key or key
        k = p.pub.get(name) or p.keys[name]
        kind, v = call(JsonWebSignature.deserialize, t, k, pin)
        if not ok:
            return None if kind == "jose" else f"accepted or failed otherwise: {kind} {v!r}"
        if kind != "ok":
            return f"refused: {v!r}"
        want = {"alg": alg, "kid": key} if key != "bare" else {"alg": alg}
        if json.loads(v.payload) != CLAIMS or dict(v.header) != want:
            return "other payload or header returned"
        v.header["changed"] = True
        return None
    return op


def decode(options, error=None, validate=True, token=("HS256", "k1"), key=None):
    def op(p):
        opts = {"none": None, "mine": p.options, "other": p.other}[options]
        t = p.expired if token == "expired" else p.tok[token]
        name = key or "k1"
        kind, v = call(JsonWebToken.decode, t, p.pub.get(name) or p.keys[name], None, validate, opts)
        if error:
            return None if kind == "jose" and isinstance(v, error) else f"not refused as {error.__name__}: {kind} {v!r}"
        if kind != "ok":
            return f"refused: {v!r}"
        if dict(v.claims) != CLAIMS:
            return f"other claims: {v.claims}"
        v.claims["nested"]["list"].append("changed")  # what a caller does with its result is its own
        v.claims["sub"] = "changed"
        v.header["kid"] = "changed"
        return None
    return op


def encode_shared(p):
    return good(p, p.jwt.encode(p.keys["k1"]), "HS256", "k1", CLAIMS, p.before[1])


def serialize_shared(key):
    def op(p):
        return good(p, p.jws.serialize(p.keys[key]), "HS256", key, p.payload, {"alg": "HS256"})
    return op


def own_inputs(p):
    """Inputs changed after construction do not change what was constructed."""
    c, h = copy.deepcopy(CLAIMS), {"alg": "HS256", "x": [1]}
    t = JsonWebToken(c, h)
    c["nested"]["list"].append(3)
    c["sub"] = "changed"
    h["x"].append(2)
    h["alg"] = "none"
    return good(p, t.encode(p.keys["k1"]), "HS256", "k1", CLAIMS, {"alg": "HS256", "x": [1]})


def own_key(p):
    d = copy.deepcopy(p.jwk["ec"])
    d["key_ops"] = ["sign", "verify"]
    d["custom"] = {"deep": [1, 2]}
    before = copy.deepcopy(d)
    k = JsonWebKey(d)
    e = {"custom": {"deep": [1, 2]}, "key_ops": ["verify"], "kid": "ec"}
    q = JsonWebKey.parse(p.keys["ec"].export(True), "EC", True, **e)
    for x in (d, e):
        x["kid"] = "changed"
        x["d"] = "AA"
        x["key_ops"].append("encrypt")
        x["custom"]["deep"].append(3)
        x["custom"]["other"] = 1
    if q.dump() != {**p.r["ec"].jwk(True), "custom": {"deep": [1, 2]}, "key_ops": ["verify"], "kid": "ec"}:
        return "the parsed key changed with the metadata it was given"
    return None if k.dump(False) == before else "the key changed with the dictionary it was made from"


def own_list(p):
    """A key set does not change with the list or the dictionary it was made from."""
    names = ["k2", "ec5", "rsa2"]
    keys = [p.keys[n] for n in names]
    s = JsonWebKeySet(keys)
    keys.reverse()
    keys.append(p.keys["k1"])
    keys[0] = p.keys["ec"]
    d = {"keys": [copy.deepcopy(p.jwk[n]) for n in names]}
    t = JsonWebKeySet.load(d)
    d["keys"][0]["kid"] = "changed"
    d["keys"].pop()
    for x in (s, t):
        if [k["kid"] for k in x.dump(False)["keys"]] != names or any(x.get_key(n) is None for n in names) or x.get_key("k1") or x.get_key("ec") or x.get_key("changed"):
            return "the key set changed with what it was made from"
    return None


def dump(name, public):
    def op(p):
        want = {**p.r[name].jwk(public), "kid": name, "custom": {"deep": [1, 2]}}
        got = p.keys[name].dump(public)
        bad = None if got == want else f"dump gives {got}"
        got["kid"] = "changed"
        got.pop("kty")
        return bad
    return op


def export(name):
    def op(p):
        k = JsonWebKey.parse(p.keys[name].export(True), p.r[name].kty, True, kid=name)
        return None if k.dump() == {**p.r[name].jwk(True), "kid": name} else "export gives another key"
    return op


def keyset(p):
    got = p.set.dump(True)["keys"]
    if [k["kid"] for k in got] != ["k1", "rsa", "ec"]:
        return "the set changed"
    for n in ("k1", "rsa", "ec"):
        if p.set.get_key(n) is not p.keys[n]:
            return "look-up gives another key"
    return None if p.set.get_key("ec2") is None else "look-up of an unknown key"


def refused(fn):
    def op(p):
        kind, v = call(fn, p)
        return None if kind == "jose" else f"not refused: {kind} {v!r}"
    return op


def claims_ok(p):
    c = JsonWebTokenClaims(p.claims, p.options)
    bad = None if dict(c) == CLAIMS else "other claims"
    c["nested"]["list"].append("changed")
    return bad


def header_ok(p):
    h = JsonWebSignatureHeader(p.header)
    bad = None if dict(h) == p.before[1] else "other header"
    h["extra"]["a"].append(2)
    return bad


def files(p):
    """What a file holds now is what is loaded, whatever it or another file held before."""
    with tempfile.TemporaryDirectory(prefix="mc-c34-") as d:
        path = os.path.join(d, "key")
        for n in ("ec", "ec2", "rsa", "ec"):
            with open(path, "wb") as f:
                f.write(p.keys[n].export(True))
            for src in (path, os.fsencode(path)):
                k = JsonWebKey.parse(src, p.r[n].kty, True, kid=n)
                if k.dump() != {**p.r[n].jwk(True), "kid": n}:
                    return f"the file's earlier content was loaded instead of {n}"
        for raw in (b"secret-one-of-file", b"secret-two-of-file"):
            with open(path, "wb") as f:
                f.write(raw)
            if JsonWebKey.parse(path, "oct", False, format="der").dump(False)["k"] != ref.b64(raw):
                return "the file's earlier content was loaded"
        os.unlink(path)
        kind, k = call(JsonWebKey.parse, path, "oct", False, format="der")
        if kind == "ok" and k.dump(False)["k"] == ref.b64(raw):
            return "a removed file was loaded"
    return None


def generate(p):
    a, b = JsonWebKey.generate("oct", 32, kid="g"), JsonWebKey.generate("oct", 32, kid="g")
    return None if a.dump(False)["k"] != b.dump(False)["k"] and set(a.dump(False)) == {"kty", "k", "kid"} else "generated keys are not independent"


OPS = {
    "verify-hs-k1": verify("HS256", "k1"), "sign-hs-k1": sign("HS256", "k1"), "sign-hs-k2": sign("HS256", "k2"), "verify-hs-k2": verify("HS256", "k2"),
    "verify-rs": verify("RS256", "rsa"), "sign-es": sign("ES256", "ec"), "verify-es": verify("ES256", "ec"), "decode-mine": decode("mine"),
    "decode-other": decode("other", InvalidJWTClaim), "encode-shared": encode_shared, "header": header_ok, "claims": claims_ok,
    "verify-rs-bad": verify("RS256", "rsa", ok=False, tamper=True), "decode-expired": decode("none", ExpiredToken, token="expired"),
    "keyset": keyset, "dump-ec-public": dump("ec", True), "own-inputs": own_inputs, "verify-es-bad": verify("ES256", "ec", ok=False, tamper=True),
    # the first 18 also run in threads in the quick tier, the first 24 in sequences of three
    "decode-plain": decode("none"), "verify-wrong-key": verify("HS256", "k1", "k2", ok=False), "verify-pin-bad": verify("HS512", "k1", pin="HS256", ok=False),
    "dump-rsa-private": dump("rsa", False), "decode-unvalidated": decode("other", validate=False), "serialize-shared-k1": serialize_shared("k1"),
    "serialize-shared-k2": serialize_shared("k2"), "verify-pin": verify("HS512", "k1", pin="HS512"), "verify-ps": verify("PS256", "rsa"),
    "verify-rs-other-key": verify("RS256", "rsa", "rsa2", ok=False), "verify-es512": verify("ES512", "ec5"), "sign-rs": sign("RS256", "rsa"), "sign-ps": sign("PS256", "rsa"),
    "sign-es512": sign("ES512", "ec5"), "own-key": own_key, "own-list": own_list, "export-ec": export("ec"), "generate": generate, "files": files,
    "bad-key": refused(lambda p: JsonWebKey({**p.jwk["ec"], "x": "AA"})), "bad-header": refused(lambda p: JsonWebSignatureHeader({**p.header, "crit": ["b64"]})),
    "verify-hs-twin": verify("HS256", "k1", "k1-twin", ok=False), "verify-rs-twin": verify("RS256", "rsa", "rsa-twin", ok=False),
    "verify-es-twin": verify("ES256", "ec", "ec-twin", ok=False), "sign-hs-twin": sign("HS256", "k1-twin"), "sign-rs-twin": sign("RS256", "rsa-twin"),
    "sign-es-twin": sign("ES256", "ec-twin"), "verify-bare": verify("HS256", "bare"), "verify-bare-other": verify("HS256", "bare", "bare2", ok=False),
    "sign-bare": sign("HS256", "bare"), "sign-bare2": sign("HS256", "bare2"),
    "bad-claims": refused(lambda p: JsonWebTokenClaims({**p.claims, "aud": 1})),
}
NAMES = list(OPS)
TWINS = (("k1-twin", "k1", "k2"), ("rsa-twin", "rsa", "rsa2"), ("ec-twin", "ec", "ec2"))


SIGNED = (("HS256", "k1"), ("HS256", "k2"), ("HS512", "k1"), ("RS256", "rsa"), ("PS256", "rsa"), ("ES256", "ec"), ("ES512", "ec5"))


def cases(tier):
    for alg, n in SIGNED:
        signed(alg, n, json.dumps(CLAIMS).encode())
    deep = tier == "thorough"
    out = [["seq", [a], 1 if deep else 0] for a in NAMES]
    for a, b in itertools.combinations_with_replacement(NAMES if deep else NAMES[:18], 2):
        out.append(["threads", [a, b], 1])
    if not deep:
        for k in ("hs", "rs", "es"):
            out += [["threads", [a, f"{b}-{k}-twin"], 1] for a in (f"verify-{k}" + "-k1" * (k == "hs"), f"verify-{k}-twin") for b in ("verify", "sign")]
        out += [["threads", list(t), 1] for t in itertools.combinations(("verify-bare", "verify-bare-other", "sign-bare", "sign-bare2"), 2)]
    if deep:
        for a, b in itertools.combinations_with_replacement(NAMES[:10], 2):
            out.append(["threads", [a, b], 2])
        for t in itertools.combinations_with_replacement(NAMES[:6], 3):
            out.append(["threads", list(t), 1])
    return out


def bound(tier, case):
    return case[2] if case[0] == "threads" else None


def run_case(ctx, case):
    kind, names, arg = case
    if kind == "threads":
        p = pool()
        results, s = run_threads(ctx, [lambda n=n: OPS[n](p) for n in names])
        for n, (how, v) in zip(names, results):
            ctx.check(how == "ok" and v is None, f"{n} in a thread: {v!r}"[:400], threads=names, switches=s.switches)
        bad = p.intact()
        ctx.check(bad is None, f"shared objects changed: {bad}", threads=names, switches=s.switches)
        ctx.step(s.events)
        ctx.state(names, [t[2] for t in ctx.trail])
        ctx.outcome("threads")
        return
    first = names[0]
    third = NAMES if arg else NAMES[:24]
    for rest in [(), *((b,) for b in NAMES), *itertools.product(third, repeat=2)]:
        seq = (first, *rest)
        p = pool()
        for i, n in enumerate(seq):
            try:
                bad = OPS[n](p)
            except Exception as exc:
                bad = f"raised {exc!r}"
            ctx.step()
            ctx.check(bad is None, f"{n} after {list(seq[:i])}: {bad}"[:600], sequence=seq)
        bad = p.intact()
        ctx.check(bad is None, f"a shared object was changed: {bad}", sequence=seq)
        ctx.trace()
        ctx.state(seq)
        ctx.outcome("sequences")
