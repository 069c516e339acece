"""C22: keys survive every conversion unchanged."""
import json

from mc import consts, ref
from mc.jose import call
from mc.keys import EC_NAMES, METADATA, OCT_NAMES, PEMS, PRIVATE, RSA_NAMES, key, metadata, ops_for, scratch, signs, verifies, numbers, pem_forms
from psion.jose.jwk import JsonWebKey

ID = "C22"
ASSUMPTIONS = [
    "metadata is not part of PEM or Base64 and is supplied again when parsing", "a member whose value is null counts as absent",
    "parameters encoded with superfluous or missing leading zeros are not valid; if accepted, their value is preserved",
    "a secret's text is not the path of an existing file (the working directory is empty)",
    "the missing private parameters of an RSA key with n, e and d only may be filled in",
]
BOUNDS = {
    "quick": "18 EC keys (3 curves; leading zeros in x, y, d; d = 2), 27 secrets (1 to 5000 octets) and RSA keys (1024 and 2048 bits; exponents 3 to 2^32+1; "
             "swapped primes; d modulo phi and lambda) x 6 metadata sets x all conversion chains over 16-18 conversions (length 2 for EC and secrets, 1 for "
             "RSA, 2 for one RSA key); secrets of 1..2^20+1 octets around 14 powers by 4-6 ways of loading; moduli of 1025, 1031 and 3072 bits; PEM in PKCS#1, PKCS#8, SEC1, encrypted, public; all subsets of optional RSA members",
    "thorough": "chains of length 3 for EC and secrets, 2 for RSA",
}


def expected(k, public, meta):
    return {**k.jwk(public and k.kty != "oct"), **meta}


def judge(ctx, name, k, obj, private, meta, sign, **info):
    """Compare a psion key with the reference key it should be."""
    rk = key(name)
    ctx.trace()
    ctx.step()
    want = expected(rk, not private, meta)
    kind, got = call(obj.dump, not private)
    ctx.check(kind == "ok", "the key cannot be dumped", error=repr(got), **info)
    ctx.check(got == want, "the key changed", got=got, want=want, **info)
    kind, got = call(obj.dump, True)
    ctx.check(kind == "ok" and got == expected(rk, True, meta), "the public half changed", got=repr(got), **info)
    ctx.check(json.loads(json.dumps(got)) == got, "the dump is not JSON", **info)
    if sign:
        ctx.check(verifies(name, obj), "the converted key does not verify signatures of the original", **info)
        if private:
            s = signs(name, obj)
            ctx.check(s == "ok", "the converted key does not sign for the original", result=s, **info)
    ctx.state(name, private, json.dumps(meta, sort_keys=True))


def chains(ctx, name, meta, depth, d, sign_all):
    rk = key(name)
    ops = ops_for(rk, meta)

    def walk(obj, private, left, path):
        judge(ctx, name, rk, obj, private, meta, sign_all or not path or left == 0, key=name, chain=path, metadata=meta)
        if not left:
            return
        for op, (needs, gives, fn) in ops.items():
            if needs and not private:
                continue
            if rk.kty == "oct":
                gives = True
            for f in d.iterdir():
                f.unlink()
            kind, v = call(fn, obj, rk.kty, meta, d)
            ctx.check(kind == "ok", "a conversion failed", conversion=op, error=repr(v), key=name, chain=path, metadata=meta)
            walk(v, gives, left - 1, path + [op])

    walk(JsonWebKey(expected(rk, False, meta)), True, depth, [])
    if rk.kty != "oct":
        walk(JsonWebKey(expected(rk, True, meta)), False, depth, ["public"])


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in EC_NAMES + OCT_NAMES:
        for m in range(len(METADATA)):
            out.append(["chain", n, m, 3 if deep else (2 if m in (0, 3) else 1)])
    for n in RSA_NAMES:
        for m in range(len(METADATA)):
            out.append(["chain", n, m, 2 if deep or (n == "rsa:2:plain" and m in (0, 3)) else (1 if m in (0, 4, 5) or deep else 0)])
    for n in ("rsa:0:plain", "rsa:2:swapped", "rsa:2:plain"):
        out.append(["partial", n])
    out += [["pem"], ["encodings"]]
    out += [["size", n] for n in SIZES]
    return out


SIZES = sorted({s + d for s in (1, 16, 48, 57, 64, 76, 128, 256, 512, 1024, 4096, 8192, 65536, 1 << 20) for d in (-1, 0, 1)} - {0} | {3 << 16, *consts.around(3 << 20)})


def size(ctx, n, d):
    """Secrets of n octets by every way to load one."""
    raw = bytes((i * 167 + (i >> 8)) % 256 for i in range(n))
    text = ref.b64(raw)
    f = d / "s"
    f.write_bytes(raw)
    b = d / "b"
    k = JsonWebKey({"kty": "oct", "k": text})
    b.write_bytes(k.export())
    sources = [("jwk", lambda: k), ("file", lambda: JsonWebKey.parse(f, "oct", False, format="der")), ("exported file", lambda: JsonWebKey.parse(b, "oct", False)),
               ("exported text path", lambda: JsonWebKey.parse(str(b), "oct", False))]
    if n > 300:  # shorter ones might be read as the name of a file
        sources += [("exported", lambda: JsonWebKey.parse(k.export(), "oct", False)), ("raw", lambda: JsonWebKey.parse(raw, "oct", False, format="der"))]
    for how, fn in sources:
        kind, v = call(fn)
        ctx.trace()
        ctx.step()
        ctx.check(kind == "ok", "a secret cannot be loaded", size=n, source=how, error=repr(v)[:200])
        ctx.check(v.dump(False).get("k") == text, "the secret changed", size=n, source=how, got_size=len(v.dump(False).get("k") or ""))
        ctx.state("size", n, how)


def run_case(ctx, case):
    with scratch() as d:
        if case[0] == "chain":
            _, name, m, depth = case
            chains(ctx, name, metadata(m, key(name)), depth, d, key(name).kty == "oct")
        elif case[0] == "partial":
            partial(ctx, case[1])
        elif case[0] == "pem":
            pem(ctx, d)
        elif case[0] == "size":
            size(ctx, case[1], d)
        else:
            encodings(ctx)


def partial(ctx, name):
    """RSA keys with some of the optional private members."""
    rk = key(name)
    full = rk.jwk(False)
    opt = ["p", "q", "dp", "dq", "qi"]
    for mask in range(32):
        jwk = {k: v for k, v in full.items() if k not in opt or mask >> opt.index(k) & 1}
        if ("p" in jwk) != ("q" in jwk) or (("dp" in jwk or "dq" in jwk or "qi" in jwk) and "p" not in jwk):
            continue  # CRT members without both primes are not well defined
        kind, k = call(JsonWebKey, jwk)
        ctx.trace()
        ctx.check(kind == "ok", "a valid RSA key was rejected", members=sorted(jwk), error=repr(k))
        got = numbers(k.dump(False))
        for m in jwk:
            if m != "kty":
                ctx.check(got.get(m) == rk.nums[m], "a member changed", member=m, members=sorted(jwk))
        ctx.check(got["p"] * got["q"] == rk.nums["n"], "the primes are wrong", members=sorted(jwk))
        ctx.check(verifies(name, k) and signs(name, k) == "ok", "the key does not work", members=sorted(jwk))
        ctx.check(k.dump(True) == rk.jwk(True), "the public half changed", members=sorted(jwk))
        again = JsonWebKey(k.dump(False))
        ctx.check(again.dump(False) == k.dump(False), "the completed key changed when loaded again", members=sorted(jwk))
        ctx.state(name, mask)


def pem(ctx, d):
    """PEM files of other implementations."""
    for what, name, private, pw in PEMS:
        rk = key(name)
        forms = pem_forms(d, what)
        for m in (0, 4, 5):
            meta = metadata(m, rk)
            for form, src in forms.items():
                for want_private in ((True, False) if private else (False,)):
                    kind, k = call(JsonWebKey.parse, src, rk.kty, not want_private, pw, **meta)
                    info = dict(pem=what, form=form, as_private=want_private, metadata=meta)
                    ctx.check(kind == "ok", "a PEM key cannot be parsed", error=repr(k), **info)
                    judge(ctx, name, rk, k, want_private, meta, True, **info)


def encodings(ctx):
    """Other spellings of the same parameters: if accepted, the material is the same."""
    for name in EC_NAMES + ["rsa:2:plain", "rsa:0:plain"]:
        rk = key(name)
        base = rk.jwk(False)
        for m in [x for x in base if x not in ("kty", "crv")]:
            raw = ref.unb64(base[m])
            spell = {"zeros": ref.b64(b"\0" + raw), "zeros3": ref.b64(b"\0\0\0" + raw), "short": ref.b64(raw.lstrip(b"\0") or b"\0"),
                     "padded": base[m] + "=" * (-len(base[m]) % 4)}
            for how, v in spell.items():
                kind, k = call(JsonWebKey, {**base, m: v})
                ctx.trace()
                ctx.check(kind != "other", "another exception", error=repr(k), key=name, member=m, spelling=how)
                ctx.outcome(f"{how}:{kind}")
                if kind == "ok":
                    ctx.check(k.dump(False) == base, "the material changed", key=name, member=m, spelling=how, got=k.dump(False))
        ctx.state(name)
    for name in OCT_NAMES:
        rk = key(name)
        k = rk.jwk()["k"]
        for v in (k + "=" * (-len(k) % 4),):
            kind, obj = call(JsonWebKey, {"kty": "oct", "k": v})
            ctx.trace()
            ctx.check(kind != "other" and (kind != "ok" or obj.dump(False) == rk.jwk()), "the secret changed", key=name, got=repr(obj))
