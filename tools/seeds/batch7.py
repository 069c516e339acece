JK, JW, JWS, JWT = "jose/jwa/jwk.py", "jose/jwk.py", "jose/jws.py", "jose/jwt.py"
SEEDS = [
    dict(SEED="C18-odd-modulus", PROPERTY="C18", NEEDS="an RSA key whose modulus length is no multiple of eight bits",
         BREAKS="right signatures of such keys are rejected, because the expected width is rounded down",
         EDITS=[(JK, '''            alg = _get_alg(algorithm)

            if rsa_padding == "PKCS1v15":
                return self._public.verify(''', '''            alg = _get_alg(algorithm)

            if len(signature) != self._public.key_size // 8:
                raise InvalidSignature

            if rsa_padding == "PKCS1v15":
                return self._public.verify(''')],
         DEMO='''
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization as s
from cryptography.hazmat.primitives.asymmetric import rsa
from psion.jose.jwk import JsonWebKey
from psion.jose.jws import JsonWebSignature

for bits in (1024, 1025, 1031, 2047):
    k = rsa.generate_private_key(65537, bits, default_backend())
    pem = k.private_bytes(s.Encoding.PEM, s.PrivateFormat.PKCS8, s.NoEncryption())
    key = JsonWebKey.parse(pem, "RSA", False)
    for alg in ("RS256", "PS256"):
        tok = JsonWebSignature(b"x", {"alg": alg}).serialize(key)
        assert JsonWebSignature.deserialize(tok, key, alg).payload == b"x"
'''),
    dict(SEED="C24-lookup-number", PROPERTY="C24", NEEDS="a look-up with a number in a set that has an ID of its digits",
         BREAKS="an ID that no key carries finds a key", EDITS=[(JW, 'key.data["kid"] == kid', 'key.data["kid"] == str(kid)')],
         DEMO='''
from psion.jose.jwk import JsonWebKey, JsonWebKeySet

s = JsonWebKeySet([JsonWebKey({"kty": "oct", "k": "AAAA", "kid": "1"}), JsonWebKey({"kty": "oct", "k": "BBBB", "kid": "None"})])
assert s.get_key("1").data["k"] == "AAAA"
assert s.get_key(1) is None and s.get_key(None) is None
'''),
    dict(SEED="C22-large-file", PROPERTY="C22", NEEDS="a secret of more than 64 KiB read from a file", BREAKS="the secret is cut",
         EDITS=[(JK, "            return f.read()\n", "            return f.read(65536)\n")],
         DEMO='''
import os, tempfile
from psion.jose.jwk import JsonWebKey

raw = bytes(range(256)) * 300
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "k")
    with open(p, "wb") as f:
        f.write(raw)
    a, b = JsonWebKey.parse(p, "oct", False, format="der"), JsonWebKey.parse(raw, "oct", False, format="der")
assert a.dump(False) == b.dump(False)
'''),
    dict(SEED="C16-pin-unvalidated", PROPERTY="C16", NEEDS="an expected algorithm together with validation switched off",
         BREAKS="a token with another algorithm than the expected one is returned", EDITS=[(JWS, "        if algorithm:\n", "        if algorithm and validate:\n")],
         DEMO='''
from psion.jose.exceptions import JoseError
from psion.jose.jwk import JsonWebKey
from psion.jose.jws import JsonWebSignature

key = JsonWebKey({"kty": "oct", "k": "AAAA"})
tok = JsonWebSignature(b"x", {"alg": "HS256"}).serialize(key)
assert JsonWebSignature.deserialize(tok, key, "HS256", False).payload == b"x"
try:
    JsonWebSignature.deserialize(tok, key, "RS256", False)
except JoseError:
    raise SystemExit(0)
raise SystemExit("another algorithm was taken")
'''),
    dict(SEED="C21-eight-options", PROPERTY="C21", NEEDS="more than eight options, the unsatisfied one late in the alphabet",
         BREAKS="only eight options are enforced",
         EDITS=[(JWT, "for claim, option in self.options.items():", "for claim, option in sorted(self.options.items())[:8]:")],
         DEMO='''
from psion.jose.exceptions import JoseError
from psion.jose.jwt import JsonWebTokenClaims

data = {c: "v" for c in "abcdefghijkl"}
JsonWebTokenClaims(data, {c: {"value": "v"} for c in data})
for bad in data:
    try:
        JsonWebTokenClaims(data, {c: {"value": "w" if c == bad else "v"} for c in data})
    except JoseError:
        continue
    raise SystemExit("accepted with another value of " + bad)
'''),
    dict(SEED="C34-nested-key-input", PROPERTY="C34", NEEDS="the caller changes a list inside the dictionary a key was made from",
         BREAKS="the key changes with it, and may be used for what it was not declared for",
         EDITS=[(JW, "        self.data = FullDict(data)\n", "        self.data = FullDict()\n        self.data.update({k: v for k, v in data.items() if v is not None})\n")],
         DEMO='''
from psion.jose.jwk import JsonWebKey

ops = ["sign"]
key = JsonWebKey({"kty": "oct", "k": "AAAA", "key_ops": ops})
before = key.dump(False)["key_ops"] == ["sign"]
ops.append("verify")
assert before and key.dump(False)["key_ops"] == ["sign"], key.dump(False)
'''),
    dict(SEED="C23-set-encryption-key", PROPERTY="C23", NEEDS="a key set with a key whose use is enc",
         BREAKS="the public view of the set contains the private half of that key",
         EDITS=[(JW, '        return {"keys": [key.dump(public) for key in self.keys]}',
                 '        return {"keys": [key.dump(public and key.data.get("use") != "enc") for key in self.keys]}')],
         DEMO='''
from psion.jose.jwk import JsonWebKey, JsonWebKeySet

for use in ("sig", "enc", None):
    s = JsonWebKeySet([JsonWebKey.generate("EC", "P-256", kid="a", use=use)])
    assert "d" not in s.dump(True)["keys"][0], use
'''),
]
