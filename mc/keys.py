"""Reference keys, metadata and the conversions between key forms."""
import base64
import contextlib
import functools
import json
import math
import os
import pathlib
import tempfile
import warnings

from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.jose.jws import JsonWebSignature

from . import ref
from .jose import call

PRIVATE = {"RSA": ("d", "p", "q", "dp", "dq", "qi"), "EC": ("d",), "oct": ("k",)}
PUBLIC = {"RSA": ("n", "e"), "EC": ("crv", "x", "y"), "oct": ()}


@contextlib.contextmanager
def scratch():
    """An empty working directory, so that no secret names an existing file."""
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="mc-keys-") as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        os.chdir(d)
        try:
            yield pathlib.Path(d)
        finally:
            os.chdir(old)


def rsa_variant(i, kind):
    """An equivalent key written differently: primes swapped, other exponents, d reduced or not."""
    n = dict(ref.rsa_key(i).nums)
    p, q = n["p"], n["q"]
    phi, lam = (p - 1) * (q - 1), (p - 1) * (q - 1) // math.gcd(p - 1, q - 1)
    if kind == "swapped":
        p, q = q, p
    elif kind == "phi":
        n["d"] = pow(n["e"], -1, phi)
    elif kind == "lambda":
        n["d"] = pow(n["e"], -1, lam)
    elif kind.startswith("e="):
        n["e"] = int(kind[2:])
        if math.gcd(n["e"], phi) != 1:
            raise ValueError("exponent does not fit the key")
        n["d"] = pow(n["e"], -1, lam)
    elif kind != "plain":
        raise ValueError(kind)
    n.update(p=p, q=q, dp=n["d"] % (p - 1), dq=n["d"] % (q - 1), qi=pow(q, -1, p))
    return ref.RKey("RSA", f"rsa{i}:{kind}", n)


SECRETS = [b"\x00", b"\x00\x00\x00", b"\x00" * 32, b"\xff" * 32, b"a", b"ab", b"abc", b"abcd", bytes(range(256)), b"=", b"===", b"\n", b" secret ",
           b"\xfb\xff\xfe" * 11, b"-----BEGI", b"k" * 63, b"\x80" * 31, b"s" * 300, b"s" * 5000, "p\u00e4ss\u6f22".encode(), b"\xc3\x28" * 16, b"\r\n\t\x00",
           b"/", b".", b"~/x", bytes(range(32)), bytes(range(255, 223, -1))]


@functools.lru_cache(maxsize=None)
def key(name):
    """A reference key by name: oct:<i>, ec:<curve>:<name>, rsa:<i>:<variant>."""
    kind, _, rest = name.partition(":")
    if kind == "oct":
        return ref.RKey("oct", name, {"k": SECRETS[int(rest)]})
    if kind == "ec":
        crv, _, which = rest.partition(":")
        return ref.ec_key(crv, which)
    i, _, var = rest.partition(":")
    return rsa_variant(int(i), var)


EC_NAMES = [f"ec:{c}:{n}" for c in ref.CURVES for n in ("plain", "plain2", "x0", "y0", "d0", "tiny")]
OCT_NAMES = [f"oct:{i}" for i in range(len(SECRETS))]


def rsa_names():
    out = []
    for i in range(3):
        for kind in ("plain", "swapped", "phi", "lambda", "e=3", "e=5", "e=7", "e=17", "e=257", "e=4294967297"):
            try:
                rsa_variant(i, kind)
            except ValueError:
                continue
            out.append(f"rsa:{i}:{kind}")
    # moduli of 1025, 1031 and 3072 bits
    return out + [f"rsa:{i}:{kind}" for i in (3, 4, 5) for kind in ("plain", "swapped")]


RSA_NAMES = rsa_names()


def alg_of(k):
    return {"oct": "HS256", "RSA": "RS256", "EC": {v: a for a, v in ref.ALG_CURVE.items()}.get(k.crv)}[k.kty]


METADATA = [
    {},
    {"kid": "k1"},
    {"kid": "k\u00e9y \u6f22\"\\/", "use": "sig"},
    {"kid": "k1", "use": "sig", "alg": "=", "key_ops": ["sign", "verify"]},
    {"kid": "k1", "x5u": "https://x.example/c", "x5c": ["AAAA", "BBBB"], "x5t": "dGh1bWI", "x5t#S256": "AA", "custom": {"a": [1, {"b": False}], "c": ""},
     "zero": 0, "false": False, "empty": "", "list": [], "obj": {}, "float": 1.5, "big": 2 ** 70, "none-text": "None"},
    {"kid": "1", "z": "z", "a": 0, "K": "upper", "D": "upper", "ext": True, "iat": 5, "x5": "", "kty2": "oct", "_": ["d", "k", "p"], "": "empty name",
     "\u00e9": "\u6f22", "alg ": "none"},
]


def metadata(i, k):
    m = json.loads(json.dumps(METADATA[i]))
    if m.get("alg") == "=":
        m["alg"] = alg_of(k)
    return m


@functools.lru_cache(maxsize=None)
def token(name, kid=None):
    k = key(name)
    h = {"alg": alg_of(k)}
    if kid is not None:
        h["kid"] = kid
    return ref.jws(alg_of(k), k, h, b"payload")


@functools.lru_cache(maxsize=None)
def public_key(name):
    return JsonWebKey(key(name).jwk(True))


def verifies(name, k):
    """Whether the psion key k verifies the reference's signature and refuses another key's."""
    tok = token(name)
    kind, v = call(JsonWebSignature.deserialize, tok, k, alg_of(key(name)))
    if kind != "ok" or v.payload != b"payload":
        return False
    bad = tok[:-8] + (b"AAAAAAA" if tok[-8:-1] != b"AAAAAAA" else b"BBBBBBB") + tok[-1:]
    return call(JsonWebSignature.deserialize, bad, k, alg_of(key(name)))[0] == "jose"


def signs(name, k):
    """"ok" if k signs for the reference key, "bad" if its signature is another's, or the kind of refusal."""
    alg = alg_of(key(name))
    kind, v = call(lambda: JsonWebSignature(b"own", {"alg": alg}).serialize(k))
    if kind != "ok":
        return kind
    v = v if isinstance(v, bytes) else v.encode()
    kind, v = call(JsonWebSignature.deserialize, v, public_key(name), alg)
    return "ok" if kind == "ok" and v.payload == b"own" else "bad"


# conversions: name -> (needs private, result is private, keeps metadata, function(key, kty, metadata, dir))
def _parse(src, kty, public, meta, **kw):
    return JsonWebKey.parse(src, kty, public, **kw, **meta)


def _file(d, data, name="key.pem"):
    p = d / name
    p.write_bytes(data)
    return p


def _by_set(k, public):
    kid = k.data.get("kid")
    s = JsonWebKeySet([k]) if kid is not None else JsonWebKeySet([JsonWebKey({**k.dump(False) , "kid": "tmp"})])
    text = json.dumps(s.dump(public))
    return JsonWebKeySet.load(json.loads(text)).get_key(kid if kid is not None else "tmp")


OPS = {
    "dump-private": (True, True, lambda k, kty, m, d: JsonWebKey(k.dump(False))),
    "dump-public": (False, False, lambda k, kty, m, d: JsonWebKey(k.dump(True))),
    "dump-default": (False, False, lambda k, kty, m, d: JsonWebKey(k.dump())),
    "json-private": (True, True, lambda k, kty, m, d: JsonWebKey(json.loads(json.dumps(k.dump(False))))),
    "pem-private": (True, True, lambda k, kty, m, d: _parse(k.export(False), kty, False, m)),
    "pem-default": (True, True, lambda k, kty, m, d: _parse(k.export(), kty, False, m)),
    "pem-private-as-public": (True, False, lambda k, kty, m, d: _parse(k.export(), kty, True, m)),
    "pem-public": (False, False, lambda k, kty, m, d: _parse(k.export(True), kty, True, m)),
    "file-private": (True, True, lambda k, kty, m, d: _parse(_file(d, k.export()), kty, False, m)),
    "file-text-path": (True, True, lambda k, kty, m, d: _parse(str(_file(d, k.export(), "other.key")), kty, False, m)),
    "file-bytes-path": (True, True, lambda k, kty, m, d: _parse(os.fsencode(_file(d, k.export(), "b")), kty, False, m)),
    "file-relative": (True, True, lambda k, kty, m, d: _parse(_file(d, k.export(), "rel").name, kty, False, m)),
    "file-public": (False, False, lambda k, kty, m, d: _parse(_file(d, k.export(True)), kty, True, m)),
    "file-private-as-public": (True, False, lambda k, kty, m, d: _parse(_file(d, k.export()), kty, True, m)),
}
SET_OPS = {
    "set-private": (True, True, lambda k, kty, m, d: _by_set(k, False)),
    "set-public": (False, False, lambda k, kty, m, d: _by_set(k, True)),
}
RAW_OPS = {
    "raw": (True, True, lambda k, kty, m, d: _parse(base64.urlsafe_b64decode(k.dump(False)["k"] + "==="), kty, False, m, format="der")),
    "raw-file": (True, True, lambda k, kty, m, d: _parse(
        _file(d, base64.urlsafe_b64decode(k.dump(False)["k"] + "===")), kty, False, m, format="der")),
}


def ops_for(k, meta):
    ops = dict(OPS)
    if "kid" in meta:
        ops.update(SET_OPS)
    if k.kty == "oct":
        ops.update(RAW_OPS)
    return ops


def numbers(jwk):
    """The material of a JWK as numbers, whatever its encoding."""
    out = {}
    for name, v in jwk.items():
        if name in ("n", "e", "d", "p", "q", "dp", "dq", "qi", "x", "y") and isinstance(v, str):
            out[name] = int.from_bytes(ref.unb64(v), "big")
    return out


# PEM files of another implementation: (fixture, key, private, password)
PEMS = [("rsa_pkcs8", "rsa:0:plain", 1, None), ("rsa_pkcs1", "rsa:0:plain", 1, None), ("rsa_enc", "rsa:0:plain", 1, b"pw"),
        ("rsa_enc_trad", "rsa:0:plain", 1, b"pw"), ("rsa_pub", "rsa:0:plain", 0, None), ("rsa_pub_pkcs1", "rsa:0:plain", 0, None),
        ("ec_pkcs8", "ec:P-256:plain", 1, None), ("ec_trad", "ec:P-256:plain", 1, None), ("ec_enc", "ec:P-256:plain", 1, b"pw"),
        ("ec_pub", "ec:P-256:plain", 0, None)]


def pem_forms(d, what):
    raw = ref.fixtures()["pem"][what].encode()
    f = _file(d, raw, what + ".pem")
    return {"bytes": raw, "text": raw.decode(), "path": f, "str-path": str(f), "crlf": raw.replace(b"\n", b"\r\n"), "leading": b"comment\n" + raw,
            "trailing": raw + b"\n\n"}
