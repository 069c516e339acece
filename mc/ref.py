"""Independent reference implementations (RFC 7515/7517/7518, PKCE). Uses no psion code."""
import base64
import hashlib
import hmac as _hmac
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def b64(data):
    return base64.urlsafe_b64encode(data).rstrip(b"=").decode()


def b64b(data):
    return base64.urlsafe_b64encode(data).rstrip(b"=")


def unb64(text):
    if isinstance(text, str):
        text = text.encode()
    return base64.urlsafe_b64decode(text + b"=" * (-len(text) % 4))


def s256(verifier):
    return b64(hashlib.sha256(verifier.encode()).digest())


def i2b(n, size=None):
    if size is None:
        size = max(1, (n.bit_length() + 7) // 8)
    return n.to_bytes(size, "big")


def ib64(n, size=None):
    return b64(i2b(n, size))


# -- elliptic curves -------------------------------------------------------
class Curve:
    def __init__(self, name, p, b, gx, gy, n, size):
        self.name, self.p, self.a, self.b, self.gx, self.gy, self.n, self.size = name, p, p - 3, b, gx, gy, n, size


CURVES = {
    "P-256": Curve(
        "P-256", 2**256 - 2**224 + 2**192 + 2**96 - 1,
        0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
        0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
        0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5,
        0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551, 32),
    "P-384": Curve(
        "P-384", 2**384 - 2**128 - 2**96 + 2**32 - 1,
        0xB3312FA7E23EE7E4988E056BE3F82D19181D9C6EFE8141120314088F5013875AC656398D8A2ED19D2A85C8EDD3EC2AEF,
        0xAA87CA22BE8B05378EB1C71EF320AD746E1D3B628BA79B9859F741E082542A385502F25DBF55296C3A545E3872760AB7,
        0x3617DE4A96262C6F5D9E98BF9292DC29F8F41DBD289A147CE9DA3113B5F0B8C00A60B1CE1D7E819D7A431D7C90EA0E5F,
        0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973, 48),
    "P-521": Curve(
        "P-521", 2**521 - 1,
        0x0051953EB9618E1C9A1F929A21A0B68540EEA2DA725B99B315F3B8B489918EF109E156193951EC7E937B1652C0BD3BB1BF073573DF883D2C34F1EF451FD46B503F00,
        0x00C6858E06B70404E9CD9E3ECB662395B4429C648139053FB521F828AF606B4D3DBAA14B5E77EFE75928FE1DC127A2FFA8DE3348B3C1856A429BF97E7E31C2E5BD66,
        0x011839296A789A3BC0045C8A5FB42C7D1BD998F54449579B446817AFBD17273E662C97EE72995EF42640C550B9013FAD0761353C7086A272C24088BE94769FD16650,
        (((1 << 265) - 6) << 256) | 0x51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409, 66),
}


def ec_add(c, a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % c.p == 0:
            return None
        m = (3 * a[0] * a[0] + c.a) * pow(2 * a[1], -1, c.p) % c.p
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, c.p) % c.p
    x = (m * m - a[0] - b[0]) % c.p
    return x, (m * (a[0] - x) - a[1]) % c.p


def ec_mul(c, k, pt):
    out = None
    while k:
        if k & 1:
            out = ec_add(c, out, pt)
        pt = ec_add(c, pt, pt)
        k >>= 1
    return out


def on_curve(c, x, y):
    return 0 <= x < c.p and 0 <= y < c.p and (y * y - x * x * x - c.a * x - c.b) % c.p == 0


def _z(c, digest):
    z = int.from_bytes(digest, "big")
    extra = len(digest) * 8 - c.n.bit_length()
    return z >> extra if extra > 0 else z


def ecdsa_sign(c, d, digest, k):
    x, _ = ec_mul(c, k, (c.gx, c.gy))
    r = x % c.n
    s = pow(k, -1, c.n) * (_z(c, digest) + r * d) % c.n
    return r, s


def ecdsa_verify(c, pub, digest, r, s):
    if not (0 < r < c.n and 0 < s < c.n):
        return False
    w = pow(s, -1, c.n)
    pt = ec_add(c, ec_mul(c, _z(c, digest) * w % c.n, (c.gx, c.gy)), ec_mul(c, r * w % c.n, pub))
    return pt is not None and pt[0] % c.n == r


# -- RSA (textbook, from integers) ------------------------------------------
_PREFIX = {
    "sha256": bytes.fromhex("3031300d060960864801650304020105000420"),
    "sha384": bytes.fromhex("3041300d060960864801650304020205000430"),
    "sha512": bytes.fromhex("3051300d060960864801650304020305000440"),
}


def mgf1(seed, size, h):
    out = b""
    i = 0
    while len(out) < size:
        out += hashlib.new(h, seed + i.to_bytes(4, "big")).digest()
        i += 1
    return out[:size]


def _rsa_pow_d(key, m):
    """Private operation with CRT."""
    m1 = pow(m % key["p"], key["dp"], key["p"])
    m2 = pow(m % key["q"], key["dq"], key["q"])
    return m2 + key["q"] * (key["qi"] * (m1 - m2) % key["p"])


def rsa_size(n):
    return (n.bit_length() + 7) // 8


def pkcs1_em(n, msg, h):
    k = rsa_size(n)
    t = _PREFIX[h] + hashlib.new(h, msg).digest()
    return b"\x00\x01" + b"\xff" * (k - len(t) - 3) + b"\x00" + t


def pkcs1_sign(key, msg, h):
    return i2b(_rsa_pow_d(key, int.from_bytes(pkcs1_em(key["n"], msg, h), "big")), rsa_size(key["n"]))


def pkcs1_verify(n, e, msg, sig, h):
    return len(sig) == rsa_size(n) and i2b(pow(int.from_bytes(sig, "big"), e, n), rsa_size(n)) == pkcs1_em(n, msg, h)


def pss_sign(key, msg, h, salt, mgf=None):
    n = key["n"]
    bits = n.bit_length() - 1
    em_len = (bits + 7) // 8
    mhash = hashlib.new(h, msg).digest()
    hh = hashlib.new(h, b"\x00" * 8 + mhash + salt).digest()
    ps = b"\x00" * (em_len - len(salt) - len(hh) - 2)
    db = ps + b"\x01" + salt
    mask = mgf1(hh, len(db), mgf or h)
    mdb = bytearray(a ^ b for a, b in zip(db, mask))
    mdb[0] &= 0xFF >> (8 * em_len - bits)
    em = bytes(mdb) + hh + b"\xbc"
    return i2b(_rsa_pow_d(key, int.from_bytes(em, "big")), rsa_size(n))


def pss_verify(n, e, msg, sig, h, salt_len):
    if len(sig) != rsa_size(n):
        return False
    v = int.from_bytes(sig, "big")
    if v >= n:
        return False
    bits = n.bit_length() - 1
    em_len = (bits + 7) // 8
    em = i2b(pow(v, e, n), em_len) if pow(v, e, n) < 1 << (8 * em_len) else b""
    hl = hashlib.new(h).digest_size
    if len(em) != em_len or em[-1] != 0xBC:
        return False
    mdb, hh = em[:em_len - hl - 1], em[em_len - hl - 1:-1]
    db = bytearray(a ^ b for a, b in zip(mdb, mgf1(hh, len(mdb), h)))
    db[0] &= 0xFF >> (8 * em_len - bits)
    i = em_len - hl - salt_len - 2
    if i < 0 or any(db[:i]) or db[i] != 1:
        return False
    salt = bytes(db[i + 1:])
    return hashlib.new(h, b"\x00" * 8 + hashlib.new(h, msg).digest() + salt).digest() == hh


# -- keys --------------------------------------------------------------------
_FIX = None


def fixtures():
    global _FIX
    if _FIX is None:
        _FIX = json.load(open(os.path.join(HERE, "fixtures", "keys.json")))
    return _FIX


_NONCES = None


def nonces():
    global _NONCES
    if _NONCES is None:
        _NONCES = json.load(open(os.path.join(HERE, "fixtures", "nonces.json")))
    return _NONCES


class RKey:
    """A reference key: numbers plus its JWK form."""

    def __init__(self, kty, name, nums, crv=None):
        self.kty, self.name, self.nums, self.crv = kty, name, nums, crv

    def jwk(self, public=False, **extra):
        n = self.nums
        if self.kty == "oct":
            out = {"kty": "oct", "k": b64(n["k"])}
        elif self.kty == "RSA":
            out = {"kty": "RSA", **{m: ib64(n[m]) for m in ("n", "e")}}
            if not public:
                out.update({m: ib64(n[m]) for m in ("d", "p", "q", "dp", "dq", "qi")})
        else:
            size = CURVES[self.crv].size
            out = {"kty": "EC", "crv": self.crv, "x": ib64(n["x"], size), "y": ib64(n["y"], size)}
            if not public:
                out["d"] = ib64(n["d"], size)
        out.update(extra)
        return out


def rsa_key(i):
    return RKey("RSA", f"rsa{i}", {k: int(v, 16) for k, v in fixtures()["rsa"][i].items()})


def ec_key(crv, name="plain"):
    return RKey("EC", f"{crv}:{name}", {k: int(v, 16) for k, v in fixtures()["ec"][crv][name].items()}, crv)


def oct_key(i=0, size=64):
    return RKey("oct", f"oct{i}", {"k": hashlib.sha512(b"oct%d" % i).digest()[:size]})


HASH = {"256": "sha256", "384": "sha384", "512": "sha512"}
ALGS = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512"]
ALG_CURVE = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}


def key_for(alg, i=0):
    if alg[:2] == "HS":
        return oct_key(i)
    if alg[:2] == "ES":
        return ec_key(ALG_CURVE[alg], ["plain", "plain2"][i])
    return rsa_key(i)


def sign(alg, key, msg, k=None, salt=None):
    h = HASH[alg[2:]]
    if alg[:2] == "HS":
        return _hmac.new(key.nums["k"], msg, h).digest()
    if alg[:2] == "RS":
        return pkcs1_sign(key.nums, msg, h)
    if alg[:2] == "PS":
        size = hashlib.new(h).digest_size
        return pss_sign(key.nums, msg, h, salt if salt is not None else b"\x5a" * size)
    c = CURVES[ALG_CURVE[alg]]
    dg = hashlib.new(h, msg).digest()
    kk = k or (int.from_bytes(hashlib.sha512(msg + b"k").digest(), "big") % (c.n - 1)) + 1
    r, s = ecdsa_sign(c, key.nums["d"], dg, kk)
    return i2b(r, c.size) + i2b(s, c.size)


def verify(alg, key, msg, sig):
    h = HASH[alg[2:]]
    if alg[:2] == "HS":
        return _hmac.new(key.nums["k"], msg, h).digest() == sig
    if alg[:2] == "RS":
        return pkcs1_verify(key.nums["n"], key.nums["e"], msg, sig, h)
    if alg[:2] == "PS":
        return pss_verify(key.nums["n"], key.nums["e"], msg, sig, h, hashlib.new(h).digest_size)
    c = CURVES[ALG_CURVE[alg]]
    if len(sig) != 2 * c.size:
        return False
    r, s = int.from_bytes(sig[:c.size], "big"), int.from_bytes(sig[c.size:], "big")
    return ecdsa_verify(c, (key.nums["x"], key.nums["y"]), hashlib.new(h, msg).digest(), r, s)


def jws(alg, key, header, payload, **kw):
    """A token made without psion. header: dict or raw bytes."""
    h = header if isinstance(header, bytes) else json.dumps(header).encode()
    msg = b64b(h) + b"." + b64b(payload)
    return msg + b"." + b64b(sign(alg, key, msg, **kw) if alg != "none" else b"")
