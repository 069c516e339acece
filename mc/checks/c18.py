"""C18: signatures follow RFC 7518 byte for byte."""
import hashlib
import hmac
import itertools

from cryptography.hazmat.backends.openssl.ec import _EllipticCurvePrivateKey
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

from mc import ref
from mc.near import LENGTHS
from mc.jose import ALGS, call, jws, psion_key
from psion.jose.jws import JsonWebSignature

ID = "C18"
ASSUMPTIONS = ["ECDSA nonces are made to cover short R and S by replacing the sign method of the cryptography backend's EC keys while "
               "signing; if the code signs by other means, only its own signatures are judged",
               "RSA keys of 1024 and 2048 bits stand for all sizes"]
BOUNDS = {
    "quick": "12 algorithms x all fixture keys (2 secrets + 7 secret sizes, 6 RSA keys (1024 to 3072 bits, also of odd lengths), 3-6 EC keys per curve with leading zeros and tiny "
             "private values) x 9 messages; messages of 63 lengths up to 300,000 octets; secrets "
             "beginning or ending with every octet value; psion signing and the reference verifying and vice versa; ECDSA nonces giving R/S with 0, 1 "
             "and more leading zero octets; negatives: every other hash, padding, every salt length, MGF hash, DER, width, order, EM format",
    "thorough": "40 messages; every salt length of PSS; 40 ECDSA nonces per pattern",
}
MESSAGES = [b"", b"a", b"\x00", b"\xff" * 3, b"{}", b"x" * 55, b"y" * 64, b"z" * 129, bytes(range(256)) * 5]
EC_NAMES = ["plain", "plain2", "x0", "y0", "d0", "tiny"]


def keys(alg):
    if alg[:2] == "HS":
        return ([ref.oct_key(0), ref.oct_key(1)] +
                [ref.RKey("oct", f"size{n}", {"k": bytes((i * 37 + n) % 256 for i in range(n))}) for n in (1, 31, 32, 63, 64, 65, 128, 129, 200)])
    if alg[:2] == "ES":
        have = ref.fixtures()["ec"][ref.ALG_CURVE[alg]]
        return [ref.ec_key(ref.ALG_CURVE[alg], n) for n in EC_NAMES if n in have]
    return [ref.rsa_key(i) for i in range(6)]


def usable(alg, key):
    """PS512 does not fit into 1024 bits with a salt of the size of the hash."""
    if alg[:2] == "PS":
        h = hashlib.new(ref.HASH[alg[2:]]).digest_size
        return (key.nums["n"].bit_length() + 6) // 8 >= 2 * h + 2
    return True


def cases(tier):
    out = []
    for alg in ALGS:
        for i, k in enumerate(keys(alg)):
            if usable(alg, k):
                out.append(["both", alg, i])
                out.append(["negative", alg, i])
        out.append(["long", alg, 0])
        if alg[:2] == "HS":
            for part in range(8):
                out.append(["secrets", alg, part])
        if alg[:2] == "ES":
            for i in range(len(keys(alg))):
                for pattern in PATTERNS:
                    out.append(["nonce", alg, i, list(pattern)])
    return out


PATTERNS = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)]


def message(payload, alg):
    return ref.b64b(b'{"alg": "%s"}' % alg.encode()) + b"." + ref.b64b(payload)


def accept(ctx, alg, vkey, msg, sig, want, what, **info):
    ctx.trace()
    ctx.step()
    tok = msg + b"." + ref.b64b(sig)
    for pin in (alg, None):
        kind, v = jws(tok, vkey, pin)
        ctx.check((kind == "ok") == want, f"{what}: " + ("rejected" if want else "accepted"), alg=alg, token=tok, error=repr(v), **info)


def zeros(c, v):
    """Leading zero octets beyond what the size of the field makes common (the top octet of P-521 has one bit)."""
    return c.size - (v.bit_length() + 7) // 8 - (1 if c.size == 66 else 0)


def candidates(c, pattern, deep):
    if pattern[0]:
        return ref.nonces()[c.name][str(pattern[0])]
    return range(1, 70000 if deep or pattern[1] < 2 else 0)


def nonces(c, d, digest, pattern, count, deep):
    """Yield nonces for which R and S have (at least) the given number of leading zero octets."""
    z = ref._z(c, digest)
    g = (c.gx, c.gy)
    pt, last = None, None
    for k in candidates(c, pattern, deep):
        pt = ref.ec_add(c, pt, g) if last == k - 1 and pt else ref.ec_mul(c, k, g)
        last = k
        r = pt[0] % c.n
        s = pow(k, -1, c.n) * (z + r * d) % c.n
        if pattern[1] and zeros(c, s) < pattern[1]:
            continue
        if s and r:
            yield k, r, s
            count -= 1
            if not count:
                return


def both_ways(ctx, alg, key, payload, **info):
    private, public = psion_key(key, cached=False), psion_key(key, alg[:2] != "HS", cached=False)
    kind, tok = call(JsonWebSignature(payload, {"alg": alg}).serialize, private)
    ctx.trace()
    ctx.step()
    ctx.check(kind == "ok", "signing failed", alg=alg, error=repr(tok), **info)
    head, pay, sig = tok.split(b".")
    ctx.check(ref.verify(alg, key, head + b"." + pay, ref.unb64(sig)), "an independent verifier rejects the signature", alg=alg, **info)
    msg = message(payload, alg)
    for pin in (alg, None):
        kind, v = jws(msg + b"." + ref.b64b(ref.sign(alg, key, msg)), public, pin)
        ctx.check(kind == "ok", "the signature of an independent signer was rejected", alg=alg, error=repr(v), **info)


def run_case(ctx, case):
    mode, alg = case[0], case[1]
    if mode == "secrets":
        body = bytes((i * 41 + 7) % 256 for i in range(31))
        for o in range(case[2], 256, 8):
            x = bytes([o])
            for k in (x + body, body + x, body[:16] + x + body[16:], x * 32, body + x * 2, x * 2 + body, x, x + body + x):
                both_ways(ctx, alg, ref.RKey("oct", "s", {"k": k}), b"payload", secret=k)
                # a secret without the octet is another secret
                other = k.strip(x)
                if other and other != k:
                    msg = message(b"payload", alg)
                    tok = msg + b"." + ref.b64b(ref.sign(alg, ref.RKey("oct", "s", {"k": other}), msg))
                    same = k.rstrip(b"\0") == other.rstrip(b"\0")  # HMAC pads the secret with zeros
                    if not same:
                        ctx.check(jws(tok, psion_key(ref.RKey("oct", "s", {"k": k}), cached=False), alg)[0] != "ok", "a shorter secret verifies", secret=k)
            ctx.state("secrets", alg, o)
        return
    if mode == "long":
        for n in LENGTHS + [300000]:
            both_ways(ctx, alg, keys(alg)[0], bytes((i * 13 + i // 256) % 256 for i in range(n)), length=n)
            ctx.state("long", alg, n)
        return
    key = keys(alg)[case[2]]
    h = ref.HASH[alg[2:]]
    private, public = psion_key(key), psion_key(key, alg[:2] != "HS")
    deep = ctx.tier == "thorough"
    msgs = MESSAGES + ([bytes([i]) * i for i in range(31)] if deep else [])
    if mode == "both":
        for payload in msgs:
            kind, tok = call(JsonWebSignature(payload, {"alg": alg}).serialize, private)
            ctx.trace()
            ctx.step()
            ctx.check(kind == "ok", "signing failed", alg=alg, key=key.name, error=repr(tok))
            head, pay, sig = tok.split(b".")
            ctx.check(b"=" not in sig, "padded signature", token=tok)
            raw = ref.unb64(sig)
            ctx.check(ref.verify(alg, key, head + b"." + pay, raw), "an independent verifier rejects the signature", alg=alg, key=key.name,
                      token=tok, signature_octets=len(raw))
            msg = message(payload, alg)
            accept(ctx, alg, public, msg, ref.sign(alg, key, msg), True, "signature of an independent signer", key=key.name)
            if alg[:2] == "PS":
                size = hashlib.new(h).digest_size
                for salt in (b"\x00" * size, b"\xff" * size, hashlib.new(h, payload).digest()):
                    accept(ctx, alg, public, msg, ref.sign(alg, key, msg, salt=salt), True, "signature of an independent signer", key=key.name)
            ctx.state(alg, key.name, payload)
        ctx.outcome("both directions")
    elif mode == "nonce":
        c = ref.CURVES[ref.ALG_CURVE[alg]]
        backend = _EllipticCurvePrivateKey
        for payload in msgs[:4 if case[3] != [1, 1] else 1]:
            msg = message(payload, alg)
            dg = hashlib.new(h, msg).digest()
            for k, r, s in nonces(c, key.nums["d"], dg, case[3], 20 if deep else 3, deep):
                sig = ref.i2b(r, c.size) + ref.i2b(s, c.size)
                accept(ctx, alg, public, msg, sig, True, "signature of an independent signer", r=hex(r), s=hex(s))
                short = sig.lstrip(b"\x00")
                if short != sig:
                    accept(ctx, alg, public, msg, short, False, "signature without leading zeros")
                rr, ss = ref.i2b(r), ref.i2b(s)
                if rr + ss != sig:
                    accept(ctx, alg, public, msg, rr + ss, False, "signature of minimal integers")
                if "sign" in vars(backend):
                    orig = backend.sign
                    try:
                        backend.sign = lambda self, data, algo: encode_dss_signature(r, s)
                        kind, tok = call(JsonWebSignature(payload, {"alg": alg}).serialize, private)
                    finally:
                        backend.sign = orig
                    ctx.check(kind == "ok", "signing failed", alg=alg, r=hex(r), s=hex(s), error=repr(tok))
                    head, pay, sg = tok.split(b".")
                    if head + b"." + pay == msg:
                        raw = ref.unb64(sg)
                        ctx.check(raw == sig or ref.verify(alg, key, msg, raw), "the signature is not R || S of fixed width", alg=alg, r=hex(r),
                                  s=hex(s), signature=raw)
                        ctx.outcome("nonce forced")
                ctx.state(alg, key.name, payload, k)
    else:
        for payload in msgs[:4] if not deep else msgs[:12]:
            msg = message(payload, alg)
            bad = []
            good = ref.sign(alg, key, msg)
            accept(ctx, alg, public, msg, good, True, "signature of an independent signer", key=key.name)
            others = [x for x in ("256", "384", "512") if x != alg[2:]]
            if alg[:2] == "HS":
                k = key.nums["k"]
                for x in ("sha256", "sha384", "sha512", "sha1", "md5", "sha3_256"):
                    if x != h:
                        bad.append((f"HMAC {x}", hmac.new(k, msg, x).digest()))
                bad += [("plain hash", hashlib.new(h, k + msg).digest()), ("hash of message and key", hashlib.new(h, msg + k).digest()),
                        ("hex", good.hex().encode()), ("truncated", good[:16]), ("doubled", good + good), ("reversed", good[::-1]),
                        ("key as base64", hmac.new(ref.b64b(k), msg, h).digest())]
                for n in range(len(good)):
                    bad.append((f"first {n} octets", good[:n]))
            elif alg[:2] == "ES":
                c = ref.CURVES[ref.ALG_CURVE[alg]]
                r, s = int.from_bytes(good[:c.size], "big"), int.from_bytes(good[c.size:], "big")
                bad += [("DER", encode_dss_signature(r, s)), ("S || R", good[c.size:] + good[:c.size]), ("little endian", r.to_bytes(c.size, "little") +
                        s.to_bytes(c.size, "little")), ("hex", good.hex().encode()), ("uncompressed", b"\x04" + good)]
                for extra in (1, 2, 8, 16, 34):
                    bad.append((f"width +{extra}", ref.i2b(r, c.size + extra) + ref.i2b(s, c.size + extra)))
                    bad.append((f"R width +{extra}", ref.i2b(r, c.size + extra) + ref.i2b(s, c.size)))
                bad += [("appended zero", good + b"\x00"), ("prepended zero", b"\x00" + good), ("prepended zeros", b"\x00\x00" + good)]
                for x in others + ["1"]:
                    d2 = hashlib.new("sha" + x, msg).digest()
                    r2, s2 = ref.ecdsa_sign(c, key.nums["d"], d2, 12345)
                    bad.append((f"SHA-{x}", ref.i2b(r2, c.size) + ref.i2b(s2, c.size)))
            else:
                nn = key.nums
                size = ref.rsa_size(nn["n"])
                hl = hashlib.new(h).digest_size
                for x in others:
                    if ref.rsa_size(nn["n"]) >= 2 * int(x) // 8 + 2:
                        bad.append((f"PSS SHA-{x}", ref.sign("PS" + x, key, msg)))
                    bad.append((f"PKCS1 SHA-{x}", ref.sign("RS" + x, key, msg)))
                if alg[:2] == "RS":
                    if size >= 2 * hl + 2:
                        bad.append(("PSS padding", ref.sign("PS" + alg[2:], key, msg)))
                    em = ref.pkcs1_em(nn["n"], msg, h)
                    dg = hashlib.new(h, msg).digest()
                    t = em[-(len(ref._PREFIX[h]) + hl):]
                    pre = b"\x00\x01"

                    def pad(t, fill=b"\xff", head=pre, tail=b""):
                        return head + fill * (size - len(head) - 1 - len(t) - len(tail)) + b"\x00" + t + tail
                    ems = [("no DigestInfo", pad(dg)), ("block type 2", pad(t, head=b"\x00\x02")), ("block type 0", pad(t, b"\x00", b"\x00\x00")),
                           ("other filling", pad(t, b"\xfe")), ("trailing octets", b"\x00\x01" + b"\xff" * 8 + b"\x00" + t +
                                                                 b"\x00" * (size - 11 - len(t))),
                           ("leading octet", b"\x01" + em[1:] if em[1:] < ref.i2b(nn["n"], size)[1:] else b"\x00\x01" + b"\xff" * 9 + em[11:-1] + b"\x00"),
                           ("swapped filling", b"\x00\x01" + b"\xff" * 8 + b"\x00" + b"\xff" * (size - 12 - len(t)) + b"\x00" + t),
                           ("prefix of another hash", pad(ref._PREFIX["sha256" if h != "sha256" else "sha384"] + dg)),
                           ("hash reversed", pad(ref._PREFIX[h] + dg[::-1])), ("hash zero", pad(ref._PREFIX[h] + b"\x00" * hl))]
                    for name, e in ems:
                        if len(e) == size and e != em and int.from_bytes(e, "big") < nn["n"]:
                            bad.append((name, ref.i2b(ref._rsa_pow_d(nn, int.from_bytes(e, "big")), size)))
                else:
                    bad.append(("PKCS1 padding", ref.sign("RS" + alg[2:], key, msg)))
                    top = ((nn["n"].bit_length() - 1 + 7) // 8) - hl - 2
                    lens = range(top + 1) if deep else {0, 1, 8, 16, 20, hl - 1, hl + 1, 32, 48, 64, top - 1, top, hl // 2, 2 * hl}
                    for n in lens:
                        if 0 <= n <= top and n != hl:
                            bad.append((f"salt of {n}", ref.pss_sign(nn, msg, h, b"\x5a" * n)))
                    for x in ("sha1", "sha256", "sha384", "sha512"):
                        if x != h:
                            bad.append((f"MGF1 {x}", ref.pss_sign(nn, msg, h, b"\x5a" * hl, mgf=x)))
                bad += [("reversed", good[::-1]), ("truncated", good[:-1]), ("prepended zero", b"\x00" + good), ("appended zero", good + b"\x00"),
                        ("hex", good.hex().encode())]
            for name, sig in bad:
                accept(ctx, alg, public, msg, sig, False, name, key=key.name)
                ctx.state(alg, key.name, payload, name)
        ctx.outcome("negatives")
    assert itertools
