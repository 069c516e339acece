"""C16: a key is only ever used as it was declared."""
from mc import ref
from mc.jose import ALGS, call, jws, jwt
from psion.jose.jwk import JsonWebKey
from psion.jose.jws import JsonWebSignature
from psion.jose.jwt import JsonWebToken

ID = "C16"
ASSUMPTIONS = ["an empty alg, use or key_ops declaration is not judged", "tokens and signatures with alg none are judged only when the "
               "caller names another expected algorithm"]
BOUNDS = {
    "quick": "13 header algorithms x 12 keys (oct, RSA, 3 curves; private and public) x 6 declared alg x 3 x 3 kid of key and header x 3 "
             "use x 10 key_ops (plus 12 use, 13 key_ops, 9 kid and 11 alg declarations close to right ones), for signing and for verifying with 6 expected algorithms and 6 misspelt ones, through JWS and JWT; expected algorithms also without validation",
    "thorough": "all 14 expected algorithms, 14 declared alg, 14 key_ops",
}
PAYLOAD = b'{"sub":"x"}'
KINDS = ["oct", "RSA", "RSAp", "P-256", "P-256p", "P-384", "P-384p", "P-521", "P-521p"]
OPS = [None, ["sign"], ["verify"], ["sign", "verify"], ["verify", "sign"], ["encrypt"], ["sign", "encrypt"], ["verify", "decrypt"],
       ["deriveKey", "sign", "verify"], ["wrapKey", "unwrapKey"]]
OPS_MORE = [["sign", "sign"], ["Sign"], ["verify", "verify", "sign"], ["signverify"]]
USES = [None, "sig", "enc"]
KIDS = [None, "k1", "k2"]
# declarations close to the right ones
NEAR_USES = ["other", "SIG", "Sig", "sign", "signature", "verify", "si", "sig ", "sigenc", "enc sig", "both", "sig,enc"]
NEAR_OPS = [["sign", "other"], ["other", "verify"], ["SIGN", "verify"], ["sig"], ["sign "], ["verify", "sign", "x"], ["unverify"], ["design", "verify"], ["wrapKey", "sign"]]
NEAR_KIDS = ["k1", "K1", "k1 ", "k", "k11", "1", "\u00e9", "e\u0301", "k1\u0000"]
NEAR_ALGS = ["HS25", "HS2566", "hs256", "rs256", "RS", "ES", "HS256 ", "other", "ES256K", "EdDSA", "RSA-OAEP"]
FAMILY = {"oct": "HS", "RSA": "RSPS", "RSAp": "RSPS"}


def fits(kind, alg):
    if kind == "oct":
        return alg[:2] == "HS"
    if kind.startswith("RSA"):
        return alg[:2] in ("RS", "PS")
    return ref.ALG_CURVE.get(alg) == kind.rstrip("p")


def declared(kind, tier):
    if tier == "thorough":
        return [None] + ALGS + ["none"]
    own = [a for a in ALGS if fits(kind, a)]
    rest = [a for a in ALGS if not fits(kind, a)]
    return [None, own[0], own[-1], rest[0], rest[-1], "none"]


def rkey(kind):
    if kind == "oct":
        return ref.oct_key(0)
    if kind.startswith("RSA"):
        return ref.rsa_key(0)
    return ref.ec_key(kind.rstrip("p"))


def cases(tier):
    out = [["nokey"]] + [["near", kind] for kind in KINDS]
    for kind in KINDS:
        for decl in declared(kind, tier):
            for kid in KIDS:
                for use in USES:
                    out.append([kind, decl, kid, use])
    return out


_TOK = {}


def token(kind, alg, kid):
    """A token whose signature is right for this key if alg fits, else one by a fitting key of the algorithm."""
    k = (kind.rstrip("p"), alg, kid)
    if k not in _TOK:
        head = {"alg": alg, **({"kid": kid} if kid else {})}
        key = None if alg == "none" else (rkey(kind) if fits(kind, alg) else ref.key_for(alg))
        _TOK[k] = ref.jws(alg, key, head, PAYLOAD)
    return _TOK[k]


def allowed(g, op, alg, hkid):
    ops = g["ops"]
    return (fits(g["kind"], alg) and g["decl"] in (None, alg) and (hkid is None or hkid == g["kid"]) and g["use"] in (None, "sig")
            and (ops is None or (set(ops) <= {"sign", "verify"} and op in ops)) and (op == "verify" or not g["kind"].endswith("p")))


def run_case(ctx, case):
    if case[0] == "nokey":
        for bad in (None, {}, b"secret", "secret", 1, [], ref.oct_key(0).jwk(), object()):
            for alg in ALGS:
                ctx.trace()
                ctx.check(jws(token("oct", alg, None), bad, alg)[0] != "ok", "a token was verified without a key", key=repr(bad), alg=alg)
                ctx.check(call(JsonWebSignature(PAYLOAD, {"alg": alg}).serialize, bad)[0] != "ok", "signed without a key", key=repr(bad), alg=alg)
                ctx.state(repr(type(bad)), alg)
        return
    if case[0] == "near":
        kind = case[1]
        own = [a for a in ALGS if fits(kind, a)]
        for use in NEAR_USES:
            one(ctx, kind, None, None, use, None, [None], own)
        for ops in OPS_MORE + NEAR_OPS:
            one(ctx, kind, None, None, None, ops, [None], own)
        for kid in NEAR_KIDS:
            one(ctx, kind, None, kid, None, None, [None] + NEAR_KIDS, own)
        for decl in NEAR_ALGS:
            one(ctx, kind, decl, None, None, None, [None], own)
        return
    kind, decl, kid, use = case
    for ops in OPS + (OPS_MORE if ctx.tier == "thorough" else []):
        one(ctx, kind, decl, kid, use, ops, KIDS, ALGS + ["none"])


def one(ctx, kind, decl, kid, use, ops, hkids, algs):
    g = {"kind": kind, "decl": decl, "kid": kid, "use": use, "ops": ops}
    extra = {k: v for k, v in (("alg", decl), ("kid", kid), ("use", use), ("key_ops", ops)) if v is not None}
    made = call(JsonWebKey, rkey(kind).jwk(kind.endswith("p"), **extra))
    ctx.check(made[0] == "ok", "a valid key was refused", key=extra, kind=kind, error=repr(made[1]))
    key = made[1]
    for alg in algs:
        for hkid in hkids:
            head = {"alg": alg, **({"kid": hkid} if hkid else {})}
            # signing
            if alg != "none":
                want = allowed(g, "sign", alg, hkid)
                kindr, v = call(lambda: JsonWebSignature(PAYLOAD, dict(head)).serialize(key))
                ctx.trace()
                ctx.step()
                ctx.check((kindr == "ok") == want, "signing was refused" if want else "signed with a key that may not be used", header=head,
                          key=g, error=repr(v))
                if want:
                    h, p, s = v.split(b".")
                    ctx.check(ref.verify(alg, rkey(kind), h + b"." + p, ref.unb64(s)) if alg[:2] == "HS" else True, "wrong signature")
                    ctx.outcome("signed")
                else:
                    ctx.outcome("sign " + type(v).__name__)
                if hkid is None:
                    kindr, v = call(lambda: JsonWebToken({"sub": "x"}, dict(head)).encode(key))
                    ctx.check((kindr == "ok") == want, "encoding disagrees with the key's declaration", header=head, key=g, error=repr(v))
            # verifying
            tok = token(kind, alg, hkid)
            ok = alg != "none" and allowed(g, "verify", alg, hkid)
            own = [a for a in ALGS if fits(kind, a)]
            if ctx.tier == "thorough":
                pins = [None] + ALGS + ["none"]
            else:
                pins = list(dict.fromkeys([None, alg, own[0], own[-1], "none", "HS256" if own[0] != "HS256" else "RS256",
                                           *((alg[:2], alg[:-1], alg + "6", alg.lower(), alg[2:], alg[:2] + "*") if kid is None and use is None else ())]))
            for pin in pins:
                if alg == "none" and pin in (None, "none"):
                    ctx.outcome("unsecured, not judged")
                    continue
                want = ok and pin in (None, alg)
                kindr, v = jws(tok, key, pin)
                ctx.trace()
                ctx.step()
                ctx.check((kindr == "ok") == want, "verification was refused" if want else "verified with a key or algorithm that may not be used",
                          header=head, key=g, expected_algorithm=pin, error=repr(v))
                ctx.outcome("verified" if want else "verify " + type(v).__name__)
                if pin is not None and hkid is None and kid is None and use is None and ops is None:
                    # the expected algorithm also counts when nothing is verified
                    for fn in (jws, jwt):
                        kindr, v = fn(tok, key, pin, False)
                        ctx.check((kindr == "ok") == (pin == alg), "without validation, the expected algorithm was not enforced", header=head, key=g,
                                  expected_algorithm=pin, result=repr(v))
                if hkid is None or pin == alg:
                    kindr, v = jwt(tok, key, pin)
                    ctx.check((kindr == "ok") == want, "decoding disagrees with the key's declaration", header=head, key=g,
                              expected_algorithm=pin, error=repr(v))
            ctx.state(kind, decl, kid, use, tuple(ops or ()), alg, hkid)
