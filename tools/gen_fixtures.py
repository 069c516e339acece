"""Generates fixtures/keys.json (committed): RSA keys, EC keys with leading-zero patterns, PEM variants."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization as s
from cryptography.hazmat.primitives.asymmetric import rsa, ec, dsa, ed25519
from mc import ref
out = {"rsa": [], "ec": {}, "pem": {}}
for size in (2048, 2048, 1024, 1025, 1031, 3072):
    k = rsa.generate_private_key(65537, size, default_backend()); p = k.private_numbers()
    out["rsa"].append({n: hex(v) for n, v in dict(n=p.public_numbers.n, e=65537, d=p.d, p=p.p, q=p.q, dp=p.dmp1, dq=p.dmq1, qi=p.iqmp).items()})
import random
rnd = random.Random(7)
for crv in ("P-256", "P-384", "P-521"):
    c = ref.CURVES[crv]; size = c.size
    want = {"plain": None, "x0": None, "y0": None, "d0": None, "d_tiny": 1}
    keys = {}
    def info(d):
        x, y = ref.ec_mul(c, d, (c.gx, c.gy)); return {"d": hex(d), "x": hex(x), "y": hex(y)}
    keys["tiny"] = info(2)
    d = rnd.randrange(1 << (8*(size-2)), 1 << (8*(size-1)-1)); keys["d0"] = info(d)
    # walk consecutive multiples until the patterns appear
    d = rnd.randrange(c.n // 2, c.n - 10**6); pt = ref.ec_mul(c, d, (c.gx, c.gy))
    lim = 1 << (8*(size-1))
    while not all(n in keys for n in ("plain", "plain2", "x0", "y0")):
        x0, y0, d0 = pt[0] < lim, pt[1] < lim, d < lim
        name = None
        if not x0 and not y0 and not d0: name = "plain" if "plain" not in keys else "plain2"
        elif x0 and not y0: name = "x0"
        elif y0 and not x0: name = "y0"
        if name and name not in keys: keys[name] = {"d": hex(d), "x": hex(pt[0]), "y": hex(pt[1])}
        d += 1; pt = ref.ec_add(c, pt, (c.gx, c.gy))
    out["ec"][crv] = keys
# PEM of foreign kinds
def priv(k, enc=None, fmt=s.PrivateFormat.PKCS8): return k.private_bytes(s.Encoding.PEM, fmt, enc or s.NoEncryption()).decode()
def pub(k, fmt=s.PublicFormat.SubjectPublicKeyInfo): return k.public_key().public_bytes(s.Encoding.PEM, fmt).decode()
b = default_backend()
R = rsa.RSAPrivateNumbers; r0 = {k: int(v, 16) for k, v in out["rsa"][0].items()}
rk = rsa.RSAPrivateNumbers(r0["p"], r0["q"], r0["d"], r0["dp"], r0["dq"], r0["qi"], rsa.RSAPublicNumbers(r0["e"], r0["n"])).private_key(b)
ek = ec.derive_private_key(int(out["ec"]["P-256"]["plain"]["d"], 16), ec.SECP256R1(), b)
e2 = ec.derive_private_key(12345678901234567890, ec.SECP256K1(), b)
dk = dsa.generate_private_key(1024, b); ed = ed25519.Ed25519PrivateKey.generate()
pw = s.BestAvailableEncryption(b"pw")
P = out["pem"]
P["rsa_pkcs8"] = priv(rk); P["rsa_pkcs1"] = priv(rk, fmt=s.PrivateFormat.TraditionalOpenSSL); P["rsa_enc"] = priv(rk, pw)
P["rsa_enc_trad"] = priv(rk, pw, s.PrivateFormat.TraditionalOpenSSL)
P["rsa_pub"] = pub(rk); P["rsa_pub_pkcs1"] = pub(rk, s.PublicFormat.PKCS1)
P["ec_pkcs8"] = priv(ek); P["ec_trad"] = priv(ek, fmt=s.PrivateFormat.TraditionalOpenSSL); P["ec_enc"] = priv(ek, pw); P["ec_pub"] = pub(ek)
P["k1_priv"] = priv(e2); P["k1_pub"] = pub(e2)
P["dsa_priv"] = priv(dk); P["dsa_pub"] = pub(dk); P["ed_priv"] = priv(ed); P["ed_pub"] = pub(ed)
P["ssh_rsa"] = rk.public_key().public_bytes(s.Encoding.OpenSSH, s.PublicFormat.OpenSSH).decode()
P["ssh_ecdsa"] = ek.public_key().public_bytes(s.Encoding.OpenSSH, s.PublicFormat.OpenSSH).decode()
P["openssh_priv"] = rk.private_bytes(s.Encoding.PEM, s.PrivateFormat.OpenSSH, s.NoEncryption()).decode()
from cryptography import x509; from cryptography.hazmat.primitives import hashes; import datetime
nm = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, "t")])
P["cert"] = x509.CertificateBuilder().subject_name(nm).issuer_name(nm).public_key(rk.public_key()).serial_number(1).not_valid_before(datetime.datetime(2020,1,1)).not_valid_after(datetime.datetime(2040,1,1)).sign(rk, hashes.SHA256(), b).public_bytes(s.Encoding.PEM).decode()
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "fixtures", "keys.json"), "w"), indent=1)
