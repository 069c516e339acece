SEEDS = [
    dict(SEED="C15-default-unvalidated", PROPERTY="C15", NEEDS="a token is read without naming the validate argument",
         BREAKS="the signature is only verified if the caller asks for it",
         EDITS=[("jose/jws.py", "validate: bool = True", "validate: bool = False")],
         DEMO='''
from harness import *
from psion.jose import JsonWebKey, JsonWebSignature, JsonWebToken

key = JsonWebKey({"kty": "oct", "k": "A" * 64})
good = JsonWebToken({"sub": "a"}, {"alg": "HS256"}).encode(key).encode()
bad = good[:-8] + (b"A" * 8 if good[-8:] != b"A" * 8 else b"B" * 8)
expect(JsonWebSignature.deserialize(good, key).payload, "the valid token")
for call in (lambda: JsonWebSignature.deserialize(bad, key), lambda: JsonWebSignature.deserialize(bad, key, "HS256"), lambda: JsonWebToken.decode(bad, key)):
    try:
        call()
    except Exception:
        continue
    expect(False, "a forged token was accepted")
'''),
]
