"""Helpers for the JOSE checks."""
import functools
import json

from psion.jose.exceptions import JoseError
from psion.jose.jwk import JsonWebKey
from psion.jose.jws import JsonWebSignature
from psion.jose.jwt import JsonWebToken

from . import ref

ALGS = ref.ALGS


def call(fn, *args, **kw):
    """("ok", value) | ("jose", exception) | ("other", exception)"""
    try:
        return "ok", fn(*args, **kw)
    except JoseError as exc:
        return "jose", exc
    except Exception as exc:  # noqa
        return "other", exc


@functools.lru_cache(maxsize=None)
def _key(text):
    return JsonWebKey(json.loads(text))


def psion_key(rkey, public=False, cached=True, **extra):
    """The psion key of a reference key (shared between calls unless cached=False)."""
    jwk = rkey.jwk(public, **extra)
    return _key(json.dumps(jwk, sort_keys=True)) if cached else JsonWebKey(jwk)


def verify_key(alg, i=0, **extra):
    """Verification key of an algorithm: public unless symmetric."""
    return psion_key(ref.key_for(alg, i), alg[:2] != "HS", **extra)


def sign_key(alg, i=0, **extra):
    return psion_key(ref.key_for(alg, i), False, **extra)


def _args(alg, validate):
    """Arguments that have their default value are left out."""
    return {**({} if alg is None else {"algorithm": alg}), **({} if validate is True else {"validate": validate})}


def jws(token, key, alg=None, validate=True):
    return call(JsonWebSignature.deserialize, token, key, **_args(alg, validate))


def jwt(token, key, alg=None, validate=True, **kw):
    return call(JsonWebToken.decode, token, key, **_args(alg, validate), **kw)


def spelled(token, key, alg=None, **kw):
    """The same call in other spellings of its arguments: [(name, result of jws, result of jwt)]."""
    return [("positional", call(JsonWebSignature.deserialize, token, key, alg, True), call(JsonWebToken.decode, token, key, alg, True, **kw)),
            ("keywords", call(JsonWebSignature.deserialize, token=token, key=key, algorithm=alg, validate=True),
             call(JsonWebToken.decode, token=token, key=key, algorithm=alg, validate=True, **kw)),
            ("defaults", call(JsonWebSignature.deserialize, token, key), call(JsonWebToken.decode, token, key, **kw))]


def lenient(seg):
    """What a lenient Base64 decoder makes of a segment, or None."""
    import base64
    seg = seg.rstrip(b"=").replace(b"+", b"-").replace(b"/", b"_")
    try:
        return base64.b64decode(seg + b"=" * (-len(seg) % 4), b"-_", validate=True)
    except ValueError:
        return None
