"""C15: a verified signature covers exactly the token's header and payload."""
import itertools

from mc import ref
from mc.near import LENGTHS
from mc.jose import ALGS, jws, jwt, lenient, psion_key, spelled, verify_key

ID = "C15"
ASSUMPTIONS = [
    "a signature segment that decodes to the very same octets (padding, alphabet variant, unused trailing bits) is the same signature",
    "(r, n-s) is the same ECDSA signature as (r, s) and is not judged",
    "an unsecured token (alg none) is not judged when the caller names no expected algorithm",
]
BOUNDS = {
    "quick": "12 algorithms, tokens signed by an independent implementation: at every position every replacement by the 64 alphabet "
             "characters and 8 others, every deletion, duplication, adjacent swap and insertion; every prefix, suffix and extension of "
             "every segment; every combination of the segments of 8 tokens (2 headers x 2 payloads x 2 keys); every other key; "
             "degenerate signatures; payloads of 6,000, 70,000 and 300,000 octets and headers of 70,000; the calls with arguments left out, by position and by name, tokens as octets and as text; each mutation class preceded and followed by the valid token; JWS and JWT",
    "thorough": "all 256 octets at every position, insertion of every alphabet character at every position, all pairs of swapped positions "
                "of a segment, all two-position substitutions from a small set in the signature",
}
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
OTHER = b"+/=. \n\x00\xff"
CLAIMS = b'{"sub":"alice","n":1,"s":"xy"}'
PAYLOADS = {"claims": CLAIMS, "claims2": b'{"sub":"bobby","n":2,"s":"xy"}'}


def token(alg, ki=0, kid=None, payload=CLAIMS):
    header = {"alg": alg, "typ": "JWT"}
    if kid:
        header["kid"] = kid
    return ref.jws(alg, ref.key_for(alg, ki), header, payload)


MODES = ["replace", "edit", "cut", "cross", "keys", "degenerate", "long", "calls"]


def cases(tier):
    modes = MODES + (["swaps", "double", "insert"] if tier == "thorough" else [])
    out = []
    for m in modes:
        for a in ALGS:
            if m in ("replace", "insert", "swaps", "double"):
                for seg in range(3):
                    out.append([m, a, seg])
            else:
                out.append([m, a])
    return out


def rejected(ctx, tok, base, key, alg, what, api="both"):
    """tok differs from the valid token base: it must not be accepted."""
    parts, good = tok.split(b"."), base.split(b".")
    if len(parts) == 3 and parts[0] == good[0] and parts[1] == good[1] and lenient(parts[2]) == lenient(good[2]):
        ctx.outcome("same signature octets, not judged")
        return
    ctx.trace()
    ctx.step()
    verdict = jws(tok, key, alg)
    ctx.check(verdict[0] != "ok", "an altered token was accepted", alteration=what, token=tok, original=base, pinned=alg)
    if api == "both":
        verdict = jwt(tok, key, alg)
        ctx.check(verdict[0] != "ok", "an altered token was decoded", alteration=what, token=tok, original=base, pinned=alg)
    ctx.outcome(f"{what}: {type(verdict[1]).__name__}")


def accepted(ctx, tok, key, alg, header, payload):
    ctx.trace()
    for pinned in (alg, None):
        kind, v = jws(tok, key, pinned)
        ctx.check(kind == "ok", "a valid token was rejected", error=repr(v), token=tok, pinned=pinned)
        ctx.check(v.payload == payload and dict(v.header) == header, "another payload or header than signed was returned",
                  payload=v.payload, header=dict(v.header), token=tok)
    ctx.outcome("valid accepted")


def valid(ctx, alg, kid=None, payload=CLAIMS):
    base = token(alg, 0, kid, payload)
    key = verify_key(alg, **({"kid": kid} if kid else {}))
    header = {"alg": alg, "typ": "JWT"}
    if kid:
        header["kid"] = kid
    accepted(ctx, base, key, alg, header, payload)
    return base, key, header


def segment(base, seg):
    start = 0
    for _ in range(seg):
        start = base.index(b".", start) + 1
    end = base.find(b".", start)
    return start, len(base) if end < 0 else end


def run_case(ctx, case):
    mode, alg = case[:2]
    base, key, header = valid(ctx, alg)
    deep = ctx.tier == "thorough"
    api = "jws" if mode in ("swaps", "double", "insert") else "both"
    if mode == "replace":
        lo, hi = segment(base, case[2])
        octets = bytes(range(256)) if deep else B64 + OTHER
        for i in range(lo, hi):
            for o in octets:
                if o != base[i]:
                    rejected(ctx, base[:i] + bytes([o]) + base[i + 1:], base, key, alg, "replaced octet", "jws" if o % 4 else "both")
            ctx.state(mode, alg, i)
    elif mode == "insert":
        lo, hi = segment(base, case[2])
        for i in range(lo, hi + 1):
            for o in B64 + OTHER:
                rejected(ctx, base[:i] + bytes([o]) + base[i:], base, key, alg, "inserted octet", api)
            ctx.state(mode, alg, i)
    elif mode == "swaps":
        lo, hi = segment(base, case[2])
        for i, j in itertools.combinations(range(lo, hi), 2):
            if base[i] != base[j]:
                b = bytearray(base)
                b[i], b[j] = b[j], b[i]
                rejected(ctx, bytes(b), base, key, alg, "swapped octets", api)
        ctx.state(mode, alg, case[2])
    elif mode == "double":
        lo, hi = segment(base, case[2])
        step = max(1, (hi - lo) // 60)
        pos = list(range(lo, hi, step))
        for i, j in itertools.combinations(pos, 2):
            for a, b_ in ((b"A", b"A"), (b"_", b"B"), (b"0", b"z")):
                b = bytearray(base)
                b[i], b[j] = a[0], b_[0]
                if bytes(b) != base:
                    rejected(ctx, bytes(b), base, key, alg, "two replaced octets", api)
        ctx.state(mode, alg, case[2])
    elif mode == "edit":
        for i in range(len(base)):
            rejected(ctx, base[:i] + base[i + 1:], base, key, alg, "deleted octet")
            rejected(ctx, base[:i] + base[i:i + 1] + base[i:], base, key, alg, "duplicated octet")
            if i + 1 < len(base) and base[i] != base[i + 1]:
                rejected(ctx, base[:i] + base[i + 1:i + 2] + base[i:i + 1] + base[i + 2:], base, key, alg, "swapped neighbours")
            for o in b"A=._ ":
                rejected(ctx, base[:i] + bytes([o]) + base[i:], base, key, alg, "inserted octet", "jws")
            ctx.state(mode, alg, i)
    elif mode == "cut":
        parts = base.split(b".")
        for s in range(3):
            p = parts[s]
            for n in range(len(p)):
                for q in (p[:n], p[n + 1:]):
                    rejected(ctx, b".".join(parts[:s] + [q] + parts[s + 1:]), base, key, alg, "truncated segment")
            for n in range(1, 9):
                for o in (b"A", b"_", b"z"):
                    for q in (p + o * n, o * n + p):
                        rejected(ctx, b".".join(parts[:s] + [q] + parts[s + 1:]), base, key, alg, "extended segment")
            # whole octets of the decoded segment
            raw = lenient(p)
            for n in range(len(raw)):
                for r in (raw[:n], raw[n + 1:], raw[:n] + bytes([raw[n] ^ 1]) + raw[n + 1:], raw[:n] + bytes([raw[n] ^ 128]) + raw[n + 1:]):
                    rejected(ctx, b".".join(parts[:s] + [ref.b64b(r)] + parts[s + 1:]), base, key, alg, "altered decoded segment", "jws")
            for extra in (b"\x00", b"\x00" * 8, b"\x01", raw):
                for r in (raw + extra, extra + raw):
                    rejected(ctx, b".".join(parts[:s] + [ref.b64b(r)] + parts[s + 1:]), base, key, alg, "extended decoded segment")
            ctx.state(mode, alg, s)
    elif mode == "cross":
        made = {}
        for ki in (0, 1):
            for kid in (None, "k"):
                for pn, pl in PAYLOADS.items():
                    made[(ki, kid, pn)] = token(alg, ki, kid, pl).split(b".")
        names = list(made)
        for a, b, c in itertools.product(names, repeat=3):
            tok = b".".join([made[a][0], made[b][1], made[c][2]])
            for ki in (0, 1):
                extra = {"kid": "k"}
                k = verify_key(alg, ki, **extra)
                ok = made[c] == [made[a][0], made[b][1], made[c][2]] and c[0] == ki
                for pinned in (alg, None):
                    kind, v = jws(tok, k, pinned)
                    ctx.trace()
                    ctx.step()
                    ctx.check((kind == "ok") == ok, "a mix of segments was accepted" if not ok else "a valid token was rejected",
                              header_of=a, payload_of=b, signature_of=c, key=ki, token=tok, error=repr(v))
                    if ok:
                        ctx.check(v.payload == PAYLOADS[c[2]] and v.header.get("kid") == c[1], "another token's content was returned",
                                  payload=v.payload, header=dict(v.header))
            ctx.state(alg, a, b, c)
    elif mode == "calls":
        # every way to call gives the same verdict; the token and the signature are validated unless the caller says otherwise
        for kid in (None, "k"):
            good = token(alg, 0, kid, CLAIMS)
            k = verify_key(alg, **({"kid": kid} if kid else {}))
            h, p, s = good.split(b".")
            bads = [h + b"." + p + b"." + (b"A" * 8 if s[:8] != b"A" * 8 else b"B" * 8) + s[8:], h + b"." + p + b".", h + b"." + ref.b64b(b'{"sub":"other"}') + b"." + s,
                    ref.b64b(b'{"alg":"%s"}' % alg.encode()) + b"." + p + b"." + s]
            for tok, ok in [(good, True), *((b, False) for b in bads)]:
                for t in (tok, tok.decode()):
                    for pinned in (alg, None):
                        for how, one, two in spelled(t, k, pinned):
                            ctx.trace()
                            ctx.step()
                            if isinstance(t, bytes):
                                ctx.check((one[0] == "ok") == ok, "the verdict depends on how the arguments are given", call=how, token=t, valid=ok, error=repr(one[1]))
                            ctx.check((two[0] == "ok") == ok, "the verdict of decoding depends on how the arguments are given", call=how, token=t, valid=ok, error=repr(two[1]))
                        ctx.state("calls", alg, kid, t, pinned)
    elif mode == "keys":
        others = [("same type", verify_key(alg, 1))]
        for a in ALGS:
            for i in (0, 1):
                if not (a[:2] == alg[:2] and i == 0 and ref.key_for(a, 0).name == ref.key_for(alg, 0).name):
                    if ref.key_for(a, i).name != ref.key_for(alg, 0).name:
                        others.append((f"key of {a}/{i}", verify_key(a, i)))
        if alg[:2] in ("RS", "PS"):
            others.append(("rsa 1024", psion_key(ref.rsa_key(2), True)))
        if alg[:2] == "HS":
            k = ref.oct_key(0).nums["k"]
            for n in (1, 31, 32, 63):
                others.append((f"prefix of {n}", psion_key(ref.RKey("oct", "p", {"k": k[:n]}))))
                others.append((f"suffix of {n}", psion_key(ref.RKey("oct", "p", {"k": k[-n:]}))))
            for n in range(len(k)):
                others.append((f"bit {n}", psion_key(ref.RKey("oct", "p", {"k": k[:n] + bytes([k[n] ^ 1]) + k[n + 1:]}))))
            others.append(("longer", psion_key(ref.RKey("oct", "p", {"k": k + b"\x01"}))))
        for name, k in others:
            for pinned in (alg, None):
                ctx.trace()
                ctx.check(jws(base, k, pinned)[0] != "ok", "a token was accepted with another key", other=name, token=base)
                ctx.check(jwt(base, k, pinned)[0] != "ok", "a token was decoded with another key", other=name, token=base)
            ctx.state(alg, name)
        # signed with every other algorithm or key, but claiming this one
        head = ref.b64b(b'{"alg":"%s","typ":"JWT"}' % alg.encode())
        msg = head + b"." + ref.b64b(CLAIMS)
        for a in ALGS:
            for i in (0, 1):
                rk = ref.key_for(a, i)
                if a == alg and i == 0:
                    continue
                if alg[:2] == "HS" and a[:2] == "HS" and i == 0 and a == alg:
                    continue
                tok = msg + b"." + ref.b64b(ref.sign(a, rk, msg))
                rejected(ctx, tok, base, key, alg, f"signed as {a}/{i}")
                rejected(ctx, tok, base, key, None, f"signed as {a}/{i}")
        # unsecured variants
        for name in ("none", "None", "NONE", "nOnE", ""):
            h = ref.b64b(b'{"alg":"%s","typ":"JWT"}' % name.encode())
            for sig in (b"", base.split(b".")[2]):
                rejected(ctx, h + b"." + base.split(b".")[1] + b"." + sig, base, key, alg, f"algorithm {name!r}")
                if name != "none" or sig:
                    rejected(ctx, h + b"." + base.split(b".")[1] + b"." + sig, base, key, None, f"algorithm {name!r}")
        # the public key as HMAC secret
        if alg[:2] != "HS":
            for hs in ("HS256", "HS384", "HS512"):
                for secret in (key.export(public=True), key.export(public=True).strip(), repr(key.data).encode(), b"", b"\x00"):
                    rk = ref.RKey("oct", "x", {"k": secret})
                    tok = ref.jws(hs, rk, {"alg": hs}, CLAIMS)
                    rejected(ctx, tok, base, key, alg, "public key as secret")
                    rejected(ctx, tok, base, key, None, "public key as secret")
    elif mode == "degenerate":
        msg = base.rsplit(b".", 1)[0]
        sigs = [b"", b"\x00", b"\xff"]
        size = len(lenient(base.split(b".")[2]))
        sigs += [b"\x00" * size, b"\xff" * size, b"\x01" + b"\x00" * (size - 1), b"\x00" * (size - 1) + b"\x01", b"0" * size]
        good = lenient(base.split(b".")[2])
        sigs += [good[::-1], good[size // 2:] + good[:size // 2], good * 2, bytes(o ^ 255 for o in good)]
        if alg[:2] == "ES":
            c = ref.CURVES[ref.ALG_CURVE[alg]]
            r = int.from_bytes(good[:c.size], "big")
            s = int.from_bytes(good[c.size:], "big")
            values = [0, 1, 2, c.n - 1, c.n, c.n + 1, c.p - 1, c.p, r, s, c.n - r, c.gx, (1 << 8 * c.size) - 1]
            for a, b in itertools.product(values, repeat=2):
                if (a, b) != (r, s) and a < 1 << 8 * c.size and b < 1 << 8 * c.size:
                    sigs.append(ref.i2b(a, c.size) + ref.i2b(b, c.size))
            for a, b in ((r + c.n, s), (r, s + c.n), (r + c.n, s + c.n)):
                if max(a, b) < 1 << 8 * c.size:
                    sigs.append(ref.i2b(a, c.size) + ref.i2b(b, c.size))
        if alg[:2] in ("RS", "PS"):
            nn = ref.key_for(alg).nums["n"]
            v = int.from_bytes(good, "big")
            for x in (0, 1, 2, nn - 1, nn, nn + 1, nn - v, v + nn):
                sigs.append(ref.i2b(x, max(size, (x.bit_length() + 7) // 8)))
        for sig in sigs:
            rejected(ctx, msg + b"." + ref.b64b(sig), base, key, alg, "degenerate signature")
            rejected(ctx, msg + b"." + ref.b64b(sig), base, key, None, "degenerate signature")
        ctx.state(alg, len(sigs))
    elif mode == "long":
        for n, kid in ((300000, None), (70000, None), (200, "k" * 70000), (6000, None)):
            big = b'{"sub":"' + bytes(97 + i % 26 for i in range(n)) + b'"}'
            base, key, header = valid(ctx, alg, kid, payload=big)
            lo, hi = segment(base, 0 if kid else 1)
            step = 61 if n == 6000 else hi - lo
            for i in sorted(set(range(lo, hi, step)) | set(range(hi - 12, hi)) | {lo + k + d for k in LENGTHS for d in (-1, 0, 1) if lo + k + d < hi - 12}):
                for o in b"Aq5_" if n == 6000 else b"Aq":
                    if base[i] != o:
                        rejected(ctx, base[:i] + bytes([o]) + base[i + 1:], base, key, alg, "altered long segment", "jws")
                rejected(ctx, base[:i] + base[hi:], base, key, alg, "truncated long segment", "jws")
                ctx.state(alg, n, bool(kid), i)
    accepted(ctx, base, key, alg, header, CLAIMS if mode != "long" else big)
