"""Planted bugs, part 2: psion.jose and psion.webtools."""
SEEDS = []
HEAD = '''
import base64, hashlib, json, os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
from psion.jose import JsonWebKey, JsonWebKeySet, JsonWebToken
from psion.jose.jws import JsonWebSignature, JsonWebSignatureHeader
from psion.jose.jwt import JsonWebTokenClaims
from psion.jose.exceptions import JoseError
from psion import webtools


def expect(cond, text):
    if not cond:
        print("FAILED:", text)
        sys.exit(1)


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except JoseError:
        return True
    except Exception as exc:
        expect(False, f"{type(exc).__name__} was raised")
    return False


def b64(b):
    return base64.urlsafe_b64encode(b).decode().rstrip("=")


OCT = JsonWebKey({"kty": "oct", "k": b64(b"k" * 64)})

'''


def seed(id, needs, breaks, edits, demo):
    SEEDS.append({"SEED": id, "PROPERTY": id[:3], "NEEDS": needs, "BREAKS": breaks, "EDITS": edits, "DEMO": HEAD + demo.lstrip()})


JWK = "jose/jwa/jwk.py"
JWS = "jose/jwa/jws.py"

seed("C15-hmac-prefix", "a signature cut to a prefix of the right one",
     "HMAC signatures are compared only as far as the presented one goes",
     [(JWK, '''            message.verify(signature)
''', '''            if not signature or not message.finalize().startswith(signature):
                raise BaseInvalidSignature
''')], '''
t = JsonWebSignature(b"x", {"alg": "HS256"}).serialize(OCT)
h, p, s = t.split(b".")
short = base64.urlsafe_b64encode(webtools.base64url_decode(s)[:4]).rstrip(b"=")
expect(raises(JsonWebSignature.deserialize, b".".join([h, p, short]), OCT), "a truncated signature was accepted")
''')

seed("C15-reencoded-header", "a token whose header was changed without changing its JSON value, such as added white space",
     "the signature is checked over the re-encoded header",
     [("jose/jws.py", '''            jws_header.algorithm.verify(signature, b".".join([header, payload]), key)
''', '''            header = base64url_encode(json_dumps(json_loads(base64url_decode(header))))
            jws_header.algorithm.verify(signature, b".".join([header, payload]), key)
''')], '''
t = JsonWebSignature(b"x", {"alg": "HS256"}).serialize(OCT)
h, p, s = t.split(b".")
other = b64(b'{"alg" :"HS256"}').encode()
expect(raises(JsonWebSignature.deserialize, b".".join([other, p, s]), OCT), "a changed header was accepted")
''')

seed("C16-use-list", "a key declared for encryption",
     "the declared use is compared by substring, so uses that contain sig pass",
     [("jose/jws.py", '''        if key.data.get("use") != "sig":
''', '''        if key.data.get("use") == "enc":
''')], '''
k = JsonWebKey(dict(OCT.data, use="other"))
expect(raises(JsonWebSignature(b"x", {"alg": "HS256"}).serialize, k), "a key for another use signed")
''')

seed("C16-expected-prefix", "an expected algorithm together with a token of the same family",
     "the expected algorithm is compared by family only",
     [("jose/jws.py", '''            if (alg := jws_header.get("alg")) != algorithm:
''', '''            if (alg := jws_header.get("alg"))[:2] != algorithm[:2]:
''')], '''
t = JsonWebSignature(b"x", {"alg": "HS512"}).serialize(OCT)
expect(raises(JsonWebSignature.deserialize, t, OCT, "HS256"), "another algorithm was accepted")
''')

seed("C16-curve", "an EC key on another curve than the algorithm's whose coordinates fit",
     "the curve is checked for signing only when the key names an algorithm",
     [(JWS, '''        if key.data.get("crv") != cls.__curve__:
''', '''        if key.data.get("crv") != cls.__curve__ and key.data.get("alg"):
''')], '''
k = JsonWebKey.generate("EC", "P-256")
expect(raises(JsonWebSignature(b"x", {"alg": "ES384"}).serialize, k), "a key on another curve signed")
''')

seed("C17-payload-text", "a payload that is not UTF-8 text",
     "payloads pass through a text conversion when read back",
     [("jose/jws.py", '''        self.header = header
        self.payload = payload
''', '''        self.header = header
        self.payload = payload.rstrip(b"\\x00") if isinstance(payload, bytes) else payload
''')], '''
t = JsonWebSignature(b"ab\\x00", {"alg": "HS256"}).serialize(OCT)
expect(JsonWebSignature.deserialize(t, OCT).payload == b"ab\\x00", "the payload changed")
''')

seed("C17-numbers", "a claim whose value is false, zero or an empty string",
     "falsy claims are dropped",
     [("webtools.py", '''        super().__init__({k: v for k, v in _data.items() if v is not None})
''', '''        super().__init__({k: v for k, v in _data.items() if v or v in (0, False, "")})
''')], '''
t = JsonWebToken({"iss": "i", "list": []}, {"alg": "HS256"}).encode(OCT)
expect(JsonWebToken.decode(t, OCT).claims == {"iss": "i", "list": []}, "an empty claim was lost")
''')

seed("C18-ps512-hash", "a PS512 signature checked by another implementation",
     "PS512 hashes with SHA-384",
     [(JWS, '''    __algorithm__: str = "PS512"
    __hash_name__: str = "SHA512"
''', '''    __algorithm__: str = "PS512"
    __hash_name__: str = "SHA384"
''')], '''
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.backends import default_backend
k = JsonWebKey.generate("RSA", 2048)
t = JsonWebSignature(b"x", {"alg": "PS512"}).serialize(k)
h, p, s = t.split(b".")
pub = serialization.load_pem_public_key(k.export(True), default_backend())
try:
    pub.verify(webtools.base64url_decode(s), h + b"." + p, padding.PSS(padding.MGF1(hashes.SHA512()), 64), hashes.SHA512())
except Exception:
    expect(False, "an independent implementation rejects the signature")
''')

seed("C19-two-segments", "a token with two or four segments",
     "tokens with extra segments are read by their first three",
     [("jose/jws.py", '''            header, payload, signature = token.split(b".")
''', '''            header, payload, signature = token.split(b".")[:3]
''')], '''
t = JsonWebSignature(b"x", {"alg": "HS256"}).serialize(OCT)
expect(raises(JsonWebSignature.deserialize, t + b".eA", OCT), "a token with four segments was accepted")
''')

seed("C20-exp-boundary", "a token read at the very second of its expiration",
     "a token is still accepted at its expiration instant",
     [("jose/jwt.py", '''            if now >= exp:
''', '''            if now > exp:
''')], '''
import psion.jose.jwt as mod
from datetime import datetime as dt, timezone


class At(dt):
    @classmethod
    def now(cls, tz=None):
        return dt.fromtimestamp(1000, tz)

    @classmethod
    def utcnow(cls):
        return dt(1970, 1, 1, 0, 16, 40)


import time
time.time = lambda: 1000.0
for name in dir(mod):
    if getattr(mod, name) is dt:
        setattr(mod, name, At)
expect(raises(JsonWebTokenClaims, {"exp": 1000}), "an expired claim set was accepted")
''')

seed("C20-aud-first", "an audience list whose first item is a string and a later one is not",
     "only the first audience is checked",
     [("jose/jwt.py", '''                if any(not isinstance(item, str) for item in aud):
''', '''                if any(not isinstance(item, str) for item in aud[:1]):
''')], '''
expect(raises(JsonWebTokenClaims, {"aud": ["a", 1]}), "a non-string audience was accepted")
''')

seed("C21-list-values", "a list claim that shares no element with the allowed values but is a prefix of them",
     "a list claim is accepted when it is empty",
     [("jose/jwt.py", '''                if isinstance(value, list) and any(
                    item in option["values"] for item in value
                ):
''', '''                if isinstance(value, list) and (
                    not value or any(item in option["values"] for item in value)
                ):
''')], '''
expect(raises(JsonWebTokenClaims, {"x": [], "iss": "i"}, {"x": {"values": ["a"]}}), "an empty list was accepted")
''')

seed("C21-essential-falsy", "an essential claim with value zero, false or the empty string",
     "falsy values of essential claims count as missing",
     [("jose/jwt.py", '''            if option.get("essential") and value is None:
''', '''            if option.get("essential") and not value:
''')], '''
try:
    JsonWebTokenClaims({"x": 0}, {"x": {"essential": True}})
except JoseError:
    expect(False, "a present essential claim was called missing")
''')

seed("C22-der-strip", "a raw secret that ends in white space octets",
     "raw secrets lose surrounding white space when parsed",
     [(JWK, '''            data = to_string(base64url_encode(raw))
''', '''            data = to_string(base64url_encode(raw.strip()))
''')], '''
k = JsonWebKey.parse(b"secret" * 6 + b"\\n", "oct", False, format="der")
expect(webtools.base64url_decode(k.data["k"].encode()) == b"secret" * 6 + b"\\n", "the secret changed")
''')

seed("C22-rsa-options", "a parsed key with extra members given by the caller",
     "metadata given when parsing is lost in the dump of the key",
     [("jose/jwk.py", '''            if key not in self._algorithm.__allowed_attributes__
''', '''            if key not in self._algorithm.__allowed_attributes__ and len(key) > 1
''')], '''
k = JsonWebKey({"kty": "oct", "k": b64(b"k" * 32), "z": "meta"})
expect(k.dump(False).get("z") == "meta", "metadata was lost")
''')

seed("C23-allowed-attributes", "a private RSA key that came with its CRT coefficient",
     "the CRT coefficient stays in the public view",
     [(JWK, '''frozenset(("n", "e", "d", "p", "q", "dp", "dq", "qi"))''', '''frozenset(("n", "e", "d", "p", "q", "dp", "dq"))''')], '''
k = JsonWebKey.generate("RSA", 1024)
expect("qi" not in k.dump(True), "the public view has a private member")
''')

seed("C23-encrypted-pem", "the public view of a password-protected private PEM",
     "parsing an encrypted private key for its public half keeps the private members",
     [("jose/jwk.py", '''        key = jwk.dump(public)
''', '''        key = jwk.dump(public and not password)
''')], '''
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.backends import default_backend
raw = ec.generate_private_key(ec.SECP256R1(), default_backend()).private_bytes(
    serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.BestAvailableEncryption(b"pw"))
k = JsonWebKey.parse(raw, "EC", True, b"pw")
expect("d" not in k.data, "the public key has a private member")
''')

seed("C24-duplicate-neighbours", "two keys with the same ID that are not next to each other",
     "only neighbouring duplicates are noticed",
     [("jose/jwk.py", '''        if len(ids) != len(set(ids)):
''', '''        if any(a == b for a, b in zip(ids, ids[1:])):
''')], '''
ks = [JsonWebKey(dict(OCT.data, kid=i)) for i in ("a", "b", "a")]
expect(raises(JsonWebKeySet, ks), "a set with duplicate IDs was accepted")
''')

seed("C24-lookup-prefix", "a lookup with an ID that another key's ID starts with",
     "lookups match by prefix",
     [("jose/jwk.py", '''key.data["kid"] == kid''', '''key.data["kid"].startswith(kid)''')], '''
ks = JsonWebKeySet([JsonWebKey(dict(OCT.data, kid=i)) for i in ("key-10", "key-1")])
expect(ks.get_key("key-1") is ks.keys[1] and ks.get_key("key-") is None, "the wrong key was found")
''')

seed("C25-size-check", "generating an RSA key of 511 bits or a secret of 31 bytes",
     "the smallest secret may be one byte too short",
     [(JWK, '''        if size < 32:
''', '''        if size < 31:
''')], '''
expect(raises(JsonWebKey.generate, "oct", 31), "a secret of 31 octets was generated")
''')

seed("C25-crt-recomputed", "an RSA key whose dp does not belong to its primes",
     "a wrong CRT exponent is silently replaced",
     [(JWK, '''            first_prime_crt = b64_to_int(dp)
''', '''            first_prime_crt = b64_to_int(dp) and None
''')], '''
d = JsonWebKey.generate("RSA", 1024).dump(False)
n = webtools.b64_to_int(d["dp"])
expect(raises(JsonWebKey, dict(d, dp=webtools.int_to_b64(n + 2).decode())), "a key with a wrong dp was accepted")
''')

seed("C26-crit-empty", "a header whose crit list is empty or has a non-string later item",
     "only the first item of crit is checked",
     [("jose/jws.py", '''            for item in crit:
                if not header.get(item):
''', '''            for item in crit[:1]:
                if not header.get(item):
''')], '''
expect(raises(JsonWebSignatureHeader, {"alg": "HS256", "kid": "a", "crit": ["kid", "b64"], "b64": True}), "an unknown critical parameter was accepted")
''')

seed("C26-typ-type", "a typ that is not a string",
     "typ may be any non-empty value",
     [("jose/jws.py", '''            if not (typ := header.get("typ")) or not isinstance(typ, str):
''', '''            if not (typ := header.get("typ")) or isinstance(typ, (dict, list)):
''')], '''
expect(raises(JsonWebSignatureHeader, {"alg": "HS256", "typ": 5}), "a typ that is not a string was accepted")
''')

seed("C27-shallow", "a nested value of a none-free dictionary changed by the caller",
     "the none-free dictionary shares nested values with its source",
     [("webtools.py", '''        _data = copy.deepcopy(data or {})
''', '''        _data = dict(data or {})
''')], '''
src = {"a": {"b": 1}}
d = webtools.FullDict(src)
src["a"]["b"] = 2
expect(d["a"]["b"] == 1, "the dictionary shares structure with its source")
''')

seed("C27-assign-falsy", "zero, false or an empty value assigned to a none-free dictionary",
     "falsy values are dropped on assignment",
     [("webtools.py", '''        if value is not None:
            super().__setitem__(key, value)
''', '''        if value or isinstance(value, (int, str)):
            super().__setitem__(key, value)
''')], '''
d = webtools.FullDict()
d["a"] = []
expect(d == {"a": []}, "an assigned value was dropped")
''')
