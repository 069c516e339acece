"""C25: invalid keys are rejected cleanly."""
import itertools
import json
import math

from mc import ref
from mc.jose import call
from mc.keys import key, scratch, rsa_variant
from psion.jose.jwk import JsonWebKey

ID = "C25"
ASSUMPTIONS = [
    "metadata members (use, key_ops, kid, ...) are not key parameters and their types are not judged here",
    "private RSA members without d, some but not all of the CRT members, and zero-valued CRT members may be ignored or recomputed",
    "parameters with padding, superfluous or missing leading zeros, standard Base64 characters or given as octet strings may be accepted or rejected",
    "whether an RSA modulus of a public key is a product of two primes is not judged",
]
BOUNDS = {
    "quick": "EC (3 curves x 3 keys), RSA (1024 and 2048 bits) and secrets: all subsets of members, each member x 60 values of wrong type, encoding or "
             "value, all pairs of members x 12 values (EC), every single-bit change of every EC parameter of one key per curve and of d, p, q, dp, dq, qi, e at "
             "40 positions; members exchanged between keys; every kty x every other type's members; 20 PEM kinds x 3 types x public/private x 3 "
             "passwords x 8 presentations; every line of a PEM removed, every truncation at 64 positions; generated sizes 0 to 511 bits, 1 to 40 octets",
    "thorough": "all pairs of members for RSA; bit changes at 512 positions; truncation at every octet",
}
WRONG_TYPE = [0, 1, -1, 1.5, True, False, [], ["AQAB"], {}, {"a": "AQAB"}, [65537]]
BAD_TEXT = ["", " ", "!", "A", "AAAAA", "AQAB!", "AQ AB", "\n", "A\n", "AQAB.AQAB", "\u00e9", "\u6f22\u5b57", "\x00", "AQA\x00", "null", "0x10001", "65537.0", "A=A=",
            "=", "====", "AQAB\u00e9", "%41", "A" * 9 + "*"]


def decode(v):
    """(value, sure): integer of a Base64url text, None if it is certainly not one, sure=False if implementations may differ."""
    if not isinstance(v, str):
        return None, True
    t = v.rstrip("=")
    sure = t == v
    t2 = t.replace("+", "-").replace("/", "_")
    sure = sure and t2 == t
    if not t2 or len(t2) % 4 == 1 or any(c not in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" for c in t2):
        return None, True
    raw = ref.unb64(t2)
    if ref.b64(raw) != t2:  # unused bits set
        sure = False
    return int.from_bytes(raw, "big"), sure


def verdict(j):
    """"yes": must be a key; "no": must be rejected; "any"."""
    kty = j.get("kty")
    sure = True
    if kty == "oct":
        k = j.get("k")
        if isinstance(k, bytes):
            return "any"
        v, sure = decode(k)
        return "no" if v is None else ("yes" if sure else "any")
    if kty == "EC":
        crv = j.get("crv")
        c = ref.CURVES.get(crv) if isinstance(crv, str) else None
        if c is None:
            return "no"
        nums = {}
        for m in ("x", "y", "d"):
            if m == "d" and j.get("d") is None:
                continue
            if isinstance(j.get(m), bytes):
                return "any"
            v, s = decode(j.get(m))
            if v is None:
                return "no"
            if s and len(ref.unb64(j[m])) != c.size:
                s = False
            sure = sure and s
            nums[m] = v
        if not ref.on_curve(c, nums["x"], nums["y"]):
            return "no"
        if "d" in nums:
            if not 0 < nums["d"] < c.n or ref.ec_mul(c, nums["d"], (c.gx, c.gy)) != (nums["x"], nums["y"]):
                return "no"
        return "yes" if sure else "any"
    if kty == "RSA":
        nums = {}
        for m in ("n", "e", "d", "p", "q", "dp", "dq", "qi"):
            if j.get(m) is None and m not in ("n", "e"):
                continue
            if isinstance(j.get(m), bytes):
                return "any"
            v, s = decode(j.get(m))
            if v is None:
                if m in ("n", "e", "d"):
                    return "no"
                nums[m] = None
                continue
            if s and len(ref.i2b(v)) != len(ref.unb64(j[m])):
                s = False
            sure = sure and s
            nums[m] = v
        n, e = nums["n"], nums["e"]
        if n < 3 or e < 3 or e % 2 == 0 or e >= n:
            return "no"
        crt = [m for m in ("p", "q", "dp", "dq", "qi") if m in nums]
        if "d" not in nums:
            return "any" if crt else ("yes" if sure and n % 2 and n.bit_length() >= 512 else "any")
        if len(crt) < 5 or any(nums[m] is None for m in crt):
            if any(m in nums and nums[m] is None for m in crt):
                return "no"  # a member of wrong type or encoding
            return "no" if not private_ok(nums, crt) else "any"
        if any(nums[m] == 0 for m in crt):
            return "any"
        return ("yes" if sure else "any") if private_ok(nums, crt) else "no"
    return "no"


def private_ok(nums, crt):
    n, e, d = nums["n"], nums["e"], nums["d"]
    if not 0 < d < n:
        return False
    p, q = nums.get("p"), nums.get("q")
    if p and q:
        if p * q != n or p < 2 or q < 2:
            return False
        lam = (p - 1) * (q - 1) // math.gcd(p - 1, q - 1)
        if e * d % lam != 1:
            return False
        if nums.get("dp") and nums["dp"] != d % (p - 1) or nums.get("dq") and nums["dq"] != d % (q - 1):
            return False
        if nums.get("qi") and (nums["qi"] * q % p != 1 or nums["qi"] >= p):
            return False
        return True
    return pow(pow(2, e, n), d, n) == 2 and pow(pow(3, e, n), d, n) == 3


def judge(ctx, j, want=None, **info):
    ctx.trace()
    ctx.step()
    want = want or (verdict(j) if isinstance(j, dict) else "no")
    kind, v = call(JsonWebKey, j)
    shown = j if len(repr(j)) < 3000 else repr(j)[:3000]
    ctx.check(kind != "other", "another exception than a JOSE error was raised", jwk=shown, error=repr(v), **info)
    if want == "no":
        ctx.check(kind == "jose", "an invalid key was accepted", jwk=shown, **info)
    elif want == "yes":
        ctx.check(kind == "ok", "a valid key was rejected", jwk=shown, error=repr(v), **info)
    ctx.outcome(f"{want}:{kind}")


BASES = ["ec:P-256:plain", "ec:P-384:x0", "ec:P-521:d0", "ec:P-256:tiny", "ec:P-521:plain", "rsa:2:plain", "rsa:0:plain", "oct:25", "oct:0"]


def special(k, m):
    """Well-formed texts of wrong values for a member."""
    out = ["AA", "AQ", "Ag", "Aw", "AQAB", "AQAA", ref.b64(b"\xff" * 200), ref.b64(b"\0" * 32), ref.b64(b"\xff" * 32), ref.b64(b"\xff" * 66)]
    if k.kty == "EC" and m != "crv":
        c = ref.CURVES[k.crv]
        v = k.nums[m]
        for w in (0, 1, v - 1, v + 1, v + c.p, c.p, c.p - 1, c.n, c.n - 1, c.n + 1, (c.p - v) % c.p, (c.n - v) % c.n, v + c.n, k.nums["x"], k.nums["y"], k.nums["d"]):
            out.append(ref.ib64(w, max(c.size, (w.bit_length() + 7) // 8)))
    if k.kty == "RSA":
        v = k.nums[m]
        n = k.nums
        lam = (n["p"] - 1) * (n["q"] - 1) // math.gcd(n["p"] - 1, n["q"] - 1)
        for w in (v - 1, v + 1, v + 2, v - 2, 2 * v, v // 2, n["n"], n["p"], n["q"], n["d"], n["e"], n["d"] + lam, n["d"] + n["n"], n["n"] - v if v <= n["n"] else 3, v + n["p"],
                  v + n["p"] - 1, v + n["q"] - 1):
            if w >= 0:
                out.append(ref.ib64(w))
    return out


def cases(tier):
    out = []
    for b in BASES:
        out.append(["subsets", b])
        for m in key(b).jwk(False):
            out.append(["member", b, m])
    for b in ["ec:P-256:plain", "oct:25"] + (["rsa:2:plain", "ec:P-384:x0"] if tier == "thorough" else []):
        ms = list(key(b).jwk(False))
        for a, c in itertools.combinations(ms, 2):
            out.append(["pair", b, a, c])
    for b in ("ec:P-256:plain", "ec:P-384:plain", "ec:P-521:plain", "rsa:2:plain"):
        for m in key(b).jwk(False):
            if m not in ("kty", "crv", "n"):
                out.append(["bits", b, m])
    out += [["exchange"], ["types"], ["shapes"], ["curves"]]
    for what in ref.fixtures()["pem"]:
        out.append(["pem", what])
        out.append(["torn", what])
    out += [["sizes", "oct"], ["sizes", "EC"]] + [["sizes", "RSA", lo] for lo in range(0, 512, 128)]
    return out


def run_case(ctx, case):
    with scratch() as d:
        globals()["do_" + case[0]](ctx, d, *case[1:])
        ctx.state(case)


def do_subsets(ctx, d, name):
    full = key(name).jwk(False)
    ms = list(full)
    for mask in range(1 << len(ms)):
        j = {m: full[m] for i, m in enumerate(ms) if mask >> i & 1}
        judge(ctx, j, members=sorted(j))
        judge(ctx, {**j, "kid": "a", "use": "sig", "x": full.get("x")} if "x" in j else {**j, "kid": "a", "use": "sig"})
        judge(ctx, {**{m: None for m in full}, **j})


def do_member(ctx, d, name, m):
    k = key(name)
    full = k.jwk(False)
    values = WRONG_TYPE + BAD_TEXT + [full[m] + x for x in ("!", " ", "\n", "=", "A", ".", "\u00e9")] + ["!" + full[m], full[m][:-1], full[m][1:], full[m].swapcase()]
    values += [full[m].encode(), b"", b"\xff", None]
    if m not in ("kty", "crv", "k"):
        values += special(k, m)
    if m == "kty":
        values += ["ec", "rsa", "OCT", "Rsa", "RSA ", "OKP", "none", "EC\0", "dict", "__class__"]
    if m == "crv":
        values += ["P-256", "P-384", "P-521", "p-256", "P256", "secp256k1", "P-192", "P-224", "secp256r1", "prime256v1", "Ed25519", "P-256 "]
    for public in (False, True):
        j0 = k.jwk(public)
        if m not in j0:
            continue
        for v in values:
            judge(ctx, {**j0, m: v}, member=m)


def do_pair(ctx, d, name, a, b):
    k = key(name)
    full = k.jwk(False)
    menu = [None, 1, [], "", "A", "!", "AQAB", "AA", True, {}]
    va = menu + ([] if a in ("kty", "crv", "k") else special(k, a)[10:16])
    vb = menu + ([] if b in ("kty", "crv", "k") else special(k, b)[10:16])
    for x, y in itertools.product(va, vb):
        judge(ctx, {**full, a: x, b: y})


def do_bits(ctx, d, name, m):
    k = key(name)
    full = k.jwk(False)
    raw = ref.unb64(full[m])
    n = len(raw) * 8
    if k.kty == "EC" and (ctx.tier == "thorough" or m != "d"):
        positions = range(n)
    else:
        step = max(1, n // (512 if ctx.tier == "thorough" else 40))
        positions = sorted(set(range(0, n, step)) | {n - 1, n - 2})
    for i in positions:
        r = bytearray(raw)
        r[i // 8] ^= 0x80 >> i % 8
        judge(ctx, {**full, m: ref.b64(bytes(r))}, bit=i, member=m)


def do_exchange(ctx, d):
    """Members of one key in another."""
    groups = [["ec:P-256:plain", "ec:P-256:plain2", "ec:P-256:tiny"], ["ec:P-521:plain", "ec:P-521:x0"], ["rsa:0:plain", "rsa:1:plain"],
              ["rsa:2:plain", "rsa:2:swapped"], ["ec:P-256:plain", "ec:P-384:plain", "ec:P-521:plain"]]
    for g in groups:
        for a, b in itertools.permutations(g, 2):
            ja, jb = key(a).jwk(False), key(b).jwk(False)
            ms = [m for m in ja if m != "kty"]
            masks = range(1 << len(ms)) if len(ms) < 5 else [1 << i for i in range(len(ms))] + [(1 << i) | (1 << k) for i in range(len(ms)) for k in range(i)]
            for mask in masks:
                judge(ctx, {**ja, **{m: jb[m] for i, m in enumerate(ms) if mask >> i & 1}}, base=a, other=b)


def do_types(ctx, d):
    """The members of one type under another type's name, and all members together."""
    js = {k: key(n).jwk(False) for k, n in (("EC", "ec:P-256:plain"), ("RSA", "rsa:2:plain"), ("oct", "oct:25"))}
    for kty in list(js) + ["ec", "OKP", "", None, 0, [], {}, ["RSA"], True, "RSA\n"]:
        for src in js:
            judge(ctx, {**js[src], "kty": kty})
            judge(ctx, {m: v for m, v in {**js[src], "kty": kty}.items()}, want=None)
    # extra members of another type are metadata and must not matter unless they are the type's own
    judge(ctx, {**js["oct"], "n": js["RSA"]["n"], "crv": "P-256"}, want="yes")
    judge(ctx, {**js["EC"], "k": "AAAA", "n": 5}, want="yes")
    judge(ctx, {**js["RSA"], "k": "AAAA", "crv": "x"}, want="yes")


def do_shapes(ctx, d):
    for v in (None, [], (), "", "x", b"", b"x", 0, 1, 1.5, True, {}, [{}], [["kty", "oct"]], "{}", {"kty": {}}, {"kty": ["oct"]}, {"": ""}, {"k": "AAAA"}, {1: 2},
              {None: None}, json.dumps(key("oct:25").jwk()), set(), object()):
        judge(ctx, v, want="no")
    for b in BASES:
        full = key(b).jwk(False)
        judge(ctx, [full], want="no")
        judge(ctx, json.dumps(full), want="no")
        judge(ctx, list(full.items()), want="no")
        judge(ctx, {"keys": [full]}, want="no")
        judge(ctx, {m.upper(): v for m, v in full.items()}, want="no")
        judge(ctx, full, want="yes")
        for meta in ({"kid": "x"}, {"custom": {"a": []}}, {"x-y": 1, "a b": 2, "": 3}):
            judge(ctx, {**full, **meta}, want="yes")


def do_curves(ctx, d):
    """Small coordinates: all points (x, y) with x, y < 40 or close to the field size are off the curve unless the reference says otherwise."""
    for crv, c in ref.CURVES.items():
        vals = list(range(30)) + [c.p - i for i in range(1, 6)] + [c.p, c.p + 1, c.gx, c.gy, c.n]
        for x, y in itertools.product(vals, repeat=2):
            judge(ctx, {"kty": "EC", "crv": crv, "x": ref.ib64(x, c.size if x < 1 << 8 * c.size else None), "y": ref.ib64(y, c.size if y < 1 << 8 * c.size else None)})


KIND = {"rsa_pkcs8": ("RSA", 1, 0), "rsa_pkcs1": ("RSA", 1, 0), "rsa_enc": ("RSA", 1, 1), "rsa_enc_trad": ("RSA", 1, 1), "rsa_pub": ("RSA", 0, 0),
        "rsa_pub_pkcs1": ("RSA", 0, 0), "ec_pkcs8": ("EC", 1, 0), "ec_trad": ("EC", 1, 0), "ec_enc": ("EC", 1, 1), "ec_pub": ("EC", 0, 0)}


def do_pem(ctx, d, what):
    text = ref.fixtures()["pem"][what]
    f = d / "k.pem"
    f.write_bytes(text.encode())
    forms = {"bytes": text.encode(), "text": text, "path": f, "str": str(f), "leading": b"\n\n  \n" + text.encode(), "comment": b"# key\n" + text.encode(),
             "crlf": text.replace("\n", "\r\n").encode(), "indented": ("\t" + text).encode()}
    kty, private, enc = KIND.get(what, (None, 0, 0))
    for alg in ("RSA", "EC", "oct"):
        for public in (True, False):
            for pw in (None, b"pw", b"wrong", b""):
                for form, src in forms.items():
                    ctx.trace()
                    ctx.step()
                    kind, v = call(JsonWebKey.parse, src, alg, public, pw)
                    info = dict(pem=what, algorithm=alg, public=public, password=pw, form=form)
                    if alg == kty and not public and not private:
                        ctx.check(kind != "ok", "a public PEM gave a private key", **info)
                    elif alg != kty:
                        ctx.check(kind == "jose", "PEM of another kind was accepted or raised another exception", got=repr(v), **info)
                    elif private and pw is not None and not enc:
                        ctx.check(kind != "other", "another exception was raised", got=repr(v), **info)
                    elif enc and pw != b"pw":
                        ctx.check(kind == "jose", "an encrypted PEM was opened without its password, or raised another exception", got=repr(v), **info)
                    elif form == "indented":
                        ctx.check(kind != "other", "another exception was raised", got=repr(v), **info)
                    else:
                        ctx.check(kind == "ok", "a PEM key was rejected", got=repr(v), **info)
                    ctx.outcome(f"{alg}:{kind}")
    for alg in ("rsa", "ec", "OCT", "", None, "OKP", "dsa"):
        kind, v = call(JsonWebKey.parse, text.encode(), alg, True)
        ctx.check(kind == "jose", "an unknown algorithm was accepted or raised another exception", got=repr(v), algorithm=alg)
    for fmt in ("der", "DER", "", "jwk", "PEM"):
        for alg in ("RSA", "EC"):
            kind, v = call(JsonWebKey.parse, text.encode(), alg, True, None, fmt)
            ctx.check(kind == "jose", "an unsupported format was accepted or raised another exception", got=repr(v), format=fmt)


def do_torn(ctx, d, what):
    raw = ref.fixtures()["pem"][what].encode()
    lines = raw.splitlines(True)
    n = len(raw)
    step = 1 if ctx.tier == "thorough" else max(1, n // 64)
    torn = [b"".join(lines[:i] + lines[i + 1:]) for i in range(len(lines))] + [raw[:i] for i in range(0, n, step)] + [raw[i:] for i in range(1, n, step)]
    kty = KIND.get(what, (None,))[0]
    want = key({"RSA": "rsa:0:plain", "EC": "ec:P-256:plain"}[kty]).jwk(True) if kty else None
    for t in torn:
        for alg in ("RSA", "EC", "oct"):
            ctx.trace()
            kind, v = call(JsonWebKey.parse, t, alg, True)
            ctx.check(kind != "other", "a damaged PEM raised another exception", got=repr(v), algorithm=alg, pem=t)
            if kind == "ok" and alg != "oct":
                ctx.check(v.dump(True) == want, "a damaged PEM gave another key", got=v.dump(True), algorithm=alg, pem=t)
            if alg == "oct" and b"-----BEGIN " in t:
                ctx.check(kind == "jose", "PEM text was accepted as a secret", pem=t)
            if alg == "oct" and kind == "ok":
                ctx.outcome("fragment")


def do_sizes(ctx, d, kty, lo=0):
    if kty == "oct":
        for n in range(-2, 80):
            kind, k = call(JsonWebKey.generate, "oct", n)
            ctx.trace()
            if n == 0:  # means the default
                ctx.check(kind == "jose" or (kind == "ok" and len(ref.unb64(k.dump(False)["k"])) >= 32), "a too small secret was generated")
            elif n < 32:
                ctx.check(kind == "jose", "a too small secret was generated, or refused with another exception", size=n, got=repr(k))
            else:
                ctx.check(kind == "ok" and len(ref.unb64(k.dump(False)["k"])) == n, "a secret of another size was generated", size=n, got=repr(k))
    elif kty == "RSA":
        for n in range(lo, lo + 128):
            kind, k = call(JsonWebKey.generate, "RSA", n) if n else ("jose", None)
            ctx.trace()
            ctx.check(kind == "jose", "a too small key was generated, or refused with another exception", size=n, got=repr(k))
        if lo == 0:
            for n in (512, 1024):
                k = JsonWebKey.generate("RSA", n)
                ctx.check(int.from_bytes(ref.unb64(k.dump()["n"]), "big").bit_length() == n, "a key of another size was generated", size=n)
            k = JsonWebKey.generate("RSA", kid="g", use="sig")
            judge(ctx, k.dump(False), want="yes")
            ctx.check(int.from_bytes(ref.unb64(k.dump()["n"]), "big").bit_length() >= 2048, "by default a smaller key than documented was generated", key=k.dump())
            ctx.check(k.dump()["kid"] == "g" and k.dump()["use"] == "sig", "a generated key lacks the given metadata", key=k.dump())
    else:
        for crv in ("P-256", "P-384", "P-521"):
            k = JsonWebKey.generate("EC", crv, kid="g", alg={"P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}[crv], key_ops=["sign"])
            judge(ctx, k.dump(False), want="yes")
            ctx.check({m: k.dump().get(m) for m in ("kid", "key_ops")} == {"kid": "g", "key_ops": ["sign"]},
                      "a generated key lacks the given metadata", key=k.dump())
            ctx.check(k.dump()["crv"] == crv and verdict(k.dump(False)) == "yes", "a key of another curve was generated", curve=crv)
        for crv in ("p-256", "P-192", "secp256k1", "P256", "x", "P-224", "P-256 "):
            kind, k = call(JsonWebKey.generate, "EC", crv)
            ctx.check(kind == "jose", "a key of an unknown curve was generated, or refused with another exception", curve=crv, got=repr(k))
        for alg in ("", "rsa", "OKP", None, "ec"):
            kind, k = call(JsonWebKey.generate, alg)
            ctx.check(kind == "jose", "a key of an unknown type was generated, or refused with another exception", type=alg, got=repr(k))
