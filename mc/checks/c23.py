"""C23: public views of asymmetric keys hold no private material."""
import base64
import itertools
import json
import re

from mc import ref
from mc.jose import call
from mc.keys import EC_NAMES, METADATA, PEMS, PRIVATE, RSA_NAMES, key, metadata, ops_for, pem_forms, scratch, signs, verifies
from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.jose.jws import JsonWebSignature

ID = "C23"
ASSUMPTIONS = ["metadata supplied with a key is public", "the exception raised when a public key is asked for its private view is not judged",
               "symmetric keys have no public view (the library warns) and are only used as neighbours in key sets",
               "private values of less than 9 octets are looked for as exact members only"]
BOUNDS = {
    "quick": "all EC keys (3 curves x 6) and RSA keys x 6 metadata sets; all sequences of up to 3 of 9 operations (dump, export, default arguments, key "
             "set, sign, verify) on one key object with every public result examined; all key sets of up to 3 keys over 4 kinds (up to 2 keys: with 9 metadata sets each); every subset of the private members incl. further primes; all public conversions "
             "and conversions of their results; private values searched raw, hexadecimal, decimal, Base64 at every alignment, reversed octets",
    "thorough": "sequences of up to 4 operations",
}


def needles(rk):
    """Encodings of the private numbers."""
    out = []
    for m in PRIVATE[rk.kty]:
        n = rk.nums[m]
        raw = ref.i2b(n)
        if len(raw) < 9:
            continue
        out.append((m, raw))
        out.append((m, raw[::-1]))
        out.append((m, raw.hex().encode()))
        out.append((m, raw.hex().upper().encode()))
        out.append((m, str(n).encode()))
        for pad in range(3):
            text = base64.b64encode(b"\0" * pad + raw)[(0, 2, 3)[pad]:len(raw) * 4 // 3 - 4]
            out.append((m, text))
            out.append((m, text.replace(b"+", b"-").replace(b"/", b"_")))
    return out


def blobs(value):
    """Every octet string hidden in a value: text, decoded Base64, PEM contents."""
    if isinstance(value, dict):
        for k, v in value.items():
            yield from blobs(k)
            yield from blobs(v)
        return
    if isinstance(value, (list, tuple)):
        for v in value:
            yield from blobs(v)
        return
    raw = value if isinstance(value, bytes) else str(value).encode("utf-8", "surrogatepass")
    yield raw
    flat = re.sub(rb"-----[A-Z ]+-----|\s", b"", raw)
    yield flat
    for text in (flat, raw):
        t = text.rstrip(b"=").replace(b"-", b"+").replace(b"_", b"/")
        try:
            yield base64.b64decode(t + b"=" * (-len(t) % 4), validate=True)
        except ValueError:
            pass
        try:
            yield bytes.fromhex(t.decode())
        except ValueError:
            pass


def clean(ctx, rk, value, **info):
    marks = needles(rk)
    for b in blobs(value):
        for m, n in marks:
            ctx.check(n not in b, "a public view contains a private parameter", parameter=m, view=value, **info)


def public_dump(ctx, rk, meta, got, **info):
    ctx.check(got == {**rk.jwk(True), **meta}, "the public view is not the public parameters and metadata", got=got, **info)
    clean(ctx, rk, got, **info)


def public_pem(ctx, rk, name, pem, **info):
    clean(ctx, rk, pem, **info)
    text = pem if isinstance(pem, str) else pem.decode()
    ctx.check("PRIVATE" not in text, "the public export is a private key", **info)
    from cryptography.hazmat.backends import default_backend
    from cryptography.hazmat.primitives.serialization import load_pem_public_key
    n = load_pem_public_key(text.encode(), default_backend()).public_numbers()
    ok = (n.n, n.e) == (rk.nums["n"], rk.nums["e"]) if rk.kty == "RSA" else (n.x, n.y) == (rk.nums["x"], rk.nums["y"])
    ctx.check(ok, "the public export is another key", **info)


def is_public(ctx, name, meta, k, sign=True, **info):
    """k is a key object that must hold the public half only."""
    rk = key(name)
    ctx.trace()
    public_dump(ctx, rk, meta, k.dump(True), **info)
    public_dump(ctx, rk, meta, k.dump(), **info)
    clean(ctx, rk, dict(k.data), **info)
    public_pem(ctx, rk, name, k.export(True), **info)
    for what, fn in (("dump", lambda: k.dump(False)), ("export", lambda: k.export(False)), ("default export", lambda: k.export())):
        kind, v = call(fn)
        ctx.check(kind != "ok", "a public key gave a private view", operation=what, result=repr(v), **info)
    if sign:
        s = signs(name, k)
        ctx.check(s == "jose", "a public key signed, or refused with an exception that is not a JOSE error", result=s, **info)
        ctx.check(verifies(name, k), "the public key does not verify signatures of the private key", **info)
    ctx.state(name, json.dumps(meta, sort_keys=True))


SEQ = ["dump(True)", "dump()", "dump(False)", "export(True)", "export(False)", "set(True)", "set()", "set(False)", "sign"]


def sequences(ctx, name, m, first, depth):
    rk = key(name)
    meta = metadata(m, rk)
    meta.setdefault("kid", "kk")
    jwk = rk.jwk(False, **meta)
    alg = {"RSA": "RS256", "EC": {v: k for k, v in ref.ALG_CURVE.items()}.get(rk.crv)}[rk.kty]
    for n in range(depth):
        for rest in itertools.product(SEQ, repeat=n):
            k = JsonWebKey(jwk)
            s = JsonWebKeySet([k])
            path = [first, *rest]
            for op in path:
                ctx.step()
                if op == "dump(True)":
                    public_dump(ctx, rk, meta, k.dump(True), key=name, path=path)
                elif op == "dump()":
                    public_dump(ctx, rk, meta, k.dump(), key=name, path=path)
                elif op == "dump(False)":
                    ctx.check(k.dump(False) == jwk, "the private view changed", key=name, path=path)
                elif op == "export(True)":
                    public_pem(ctx, rk, name, k.export(True), key=name, path=path)
                elif op == "export(False)":
                    ctx.check(b"PRIVATE" in k.export(), "the private export is not private", key=name, path=path)
                elif op == "set(True)":
                    public_dump(ctx, rk, meta, s.dump(True)["keys"][0], key=name, path=path)
                elif op == "set()":
                    public_dump(ctx, rk, meta, s.dump()["keys"][0], key=name, path=path)
                elif op == "set(False)":
                    ctx.check(s.dump(False)["keys"][0] == jwk, "the private view changed", key=name, path=path)
                else:
                    h = {"alg": alg, "kid": meta["kid"]}
                    call(lambda: JsonWebSignature(b"x", h).serialize(k))
            ctx.trace()
            ctx.state(name, m, path)


KINDS = ["ec:P-256:plain", "ec:P-521:x0", "rsa:2:plain", "oct:25"]


SET_META = [{"use": "sig"}, {}, {"use": "enc"}, {"key_ops": ["sign"]}, {"key_ops": ["decrypt", "unwrapKey"], "use": "enc"}, {"alg": "RSA-OAEP"}, {"use": "other", "ext": True},
            {"key_ops": ["sign", "verify"], "use": "sig", "x5c": ["AAAA"], "private": True}, {"public": False, "d2": "x", "exp": 1}]


def sets(ctx, combo, metas):
    keys = [key(n) for n in combo]
    metas = [{"kid": f"k{i}", **SET_META[metas[i % len(metas)]]} for i in range(len(keys))]
    jwks = [{**k.jwk(False), **m} for k, m in zip(keys, metas)]
    plain = all(m.get("use") == "sig" and "key_ops" not in m for m in metas)
    for src in ("objects", "load"):
        s = JsonWebKeySet([JsonWebKey(j) for j in jwks]) if src == "objects" else JsonWebKeySet.load({"keys": jwks})
        for got in (s.dump(), s.dump(True), s.dump(public=True)):
            ctx.trace()
            ctx.check(list(got) == ["keys"] and len(got["keys"]) == len(keys), "the key set changed", got=got, keys=combo)
            text = json.dumps(got)
            for i, (n, k) in enumerate(zip(combo, keys)):
                if k.kty == "oct":
                    continue
                info = dict(key=n, keys=combo, source=src)
                public_dump(ctx, k, metas[i], got["keys"][i], **info)
                clean(ctx, k, text, **info)
            again = JsonWebKeySet.load(json.loads(text))
            for i, (n, k) in enumerate(zip(combo, keys)):
                if k.kty != "oct":
                    is_public(ctx, n, metas[i], again.get_key(f"k{i}"), plain, key=n, keys=combo, source=src)
        ctx.check(s.dump(False) == {"keys": jwks}, "the private view of the set changed", keys=combo)
        ctx.state(combo, src)


def conversions(ctx, name, m, d):
    rk = key(name)
    meta = metadata(m, rk)
    ops = ops_for(rk, meta)
    for start in (True, False):
        k0 = JsonWebKey(rk.jwk(not start, **meta))
        if not start:
            is_public(ctx, name, meta, k0, key=name, chain=["public jwk"])
        for op, (needs, gives, fn) in ops.items():
            if gives or (needs and not start):
                continue
            k1 = fn(k0, rk.kty, meta, d)
            is_public(ctx, name, meta, k1, key=name, chain=[op])
            for op2, (needs2, gives2, fn2) in ops.items():
                if needs2:
                    continue
                is_public(ctx, name, meta, fn2(k1, rk.kty, meta, d), False, key=name, chain=[op, op2])
    # a public PEM parsed as private must not give a key
    k = JsonWebKey(rk.jwk(False, **meta))
    f = d / "pub.pem"
    f.write_bytes(k.export(True))
    for src in (k.export(True), f):
        kind, v = call(JsonWebKey.parse, src, rk.kty, False, **meta)
        ctx.trace()
        ctx.check(kind != "ok", "a public PEM was parsed as a private key", key=name)


def cases(tier):
    out = []
    depth = 4 if tier == "thorough" else 3
    for n in ("ec:P-256:plain", "ec:P-384:d0", "ec:P-521:plain", "rsa:2:plain", "rsa:0:plain"):
        for m in (0, 4):
            for op in SEQ:
                out.append(["seq", n, m, op, depth - (1 if n[:3] == "rsa" else 0)])
    for n in range(1, 4):
        for combo in itertools.product(KINDS, repeat=n):
            out.append(["set", list(combo), [0]])
            if n < 3:
                out += [["set", list(combo), list(ms)] for ms in itertools.product(range(len(SET_META)), repeat=n) if any(ms)]
    for n in EC_NAMES + RSA_NAMES:
        for m in range(len(METADATA)):
            if n[:3] == "rsa" and m not in (0, 5) and tier != "thorough":
                continue
            out.append(["conv", n, m])
    out += [["pem", i] for i in range(len(PEMS))]
    out += [["members", n, i] for n in ("ec:P-256:plain", "ec:P-521:x0", "rsa:2:plain", "rsa:0:plain") for i in range(4)]
    return out


OTH = "b3RoZXItcHJpbWUtZmFjdG9yLW9mLXRoZS1rZXk"


def members(ctx, name, part):
    """Every subset of the private members (complete or not, multi-prime factors included): if it is a key, its public view is clean."""
    rk = key(name)
    full = rk.jwk(False, kid="k")
    private = [m for m in PRIVATE[rk.kty] if m in full] + ["oth"]
    subsets = [s for r in range(len(private) + 1) for s in itertools.combinations(private, r)]
    for s in subsets[part::4]:
        jwk = {k: v for k, v in full.items() if k not in private or k in s}
        if "oth" in s:
            jwk["oth"] = [{"r": OTH, "d": OTH[::-1], "t": OTH[3:]}] if rk.kty == "RSA" else "x"
        ctx.trace()
        ctx.step()
        kind, k = call(JsonWebKey, jwk)
        ctx.state(name, s, kind)
        if kind != "ok":
            ctx.outcome("refused")
            continue
        ctx.outcome("key")
        ks = JsonWebKeySet([k])
        for view, fn in (("dump", lambda: k.dump()), ("dump(True)", lambda: k.dump(True)), ("export", lambda: k.export(True)), ("set", lambda: ks.dump()),
                         ("set(True)", lambda: ks.dump(True))):
            kind, v = call(fn)
            if kind != "ok":
                continue
            clean(ctx, rk, v, key=name, members=s, operation=view)
            if rk.kty == "RSA":
                text = v if isinstance(v, bytes) else json.dumps(v).encode()
                ctx.check(OTH[3:-3].encode() not in text, "a public view contains the other prime factors", key=name, members=s, view=view)
            if isinstance(v, dict):
                got = v["keys"][0] if "keys" in v else v
                ctx.check(not set(got) & set(PRIVATE[rk.kty]), "a public view has a private member", key=name, members=s, view=view, got=sorted(got))


def foreign(ctx, what, name, private, pw, d):
    """PEM files of another implementation, encrypted ones included, parsed for their public half."""
    rk = key(name)
    for m in (0, 4, 5):
        meta = metadata(m, rk)
        for form, src in pem_forms(d, what).items():
            info = dict(source=what, form=form, metadata=meta)
            kind, k = call(JsonWebKey.parse, src, rk.kty, True, pw, **meta)
            ctx.check(kind == "ok", "a PEM key cannot be parsed", error=repr(k), **info)
            is_public(ctx, name, meta, k, **info)
            kind, k = call(JsonWebKey.parse, src, rk.kty, False, pw, **meta)
            ctx.check((kind == "ok") == bool(private), "a public PEM gave a private key" if not private else "a private PEM was refused", **info)
            if private:
                public_dump(ctx, rk, meta, k.dump(True), **info)
                public_pem(ctx, rk, name, k.export(True), **info)
                is_public(ctx, name, meta, JsonWebKey(k.dump()), False, **info)
            ctx.trace()


def run_case(ctx, case):
    with scratch() as d:
        if case[0] == "seq":
            sequences(ctx, *case[1:])
        elif case[0] == "set":
            sets(ctx, case[1], case[2])
        elif case[0] == "members":
            members(ctx, case[1], case[2])
        elif case[0] == "pem":
            foreign(ctx, *PEMS[case[1]], d)
        else:
            conversions(ctx, case[1], case[2], d)
