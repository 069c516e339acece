"""C19: malformed tokens are rejected cleanly."""
import itertools
import json

from mc import clock, ref
from mc.jose import jws, jwt, psion_key

ID = "C19"
ASSUMPTIONS = [
    "Base64 padding, the standard alphabet and unused trailing bits in a segment are not judged either way, only that nothing but a JOSE "
    "error is raised", "without validation the signature segment need not be well-formed",
    "JSON texts that are valid but extreme (repeated members, very deep, very long numbers, lone surrogates) may be accepted or rejected",
]
BOUNDS = {
    "quick": "full product of 22 well-formed or odd header texts x 100 payload texts and of 100 malformed header texts x 19 payload texts, x 5 signatures (right, wrong, malformed) for 3 key types, pinned and not, "
             "validated and not, JWS and JWT (bytes and text); segment encodings: 30 malformed encodings at each segment; all octet strings up "
             "to length 5 over 6 octets; 0-7 segments of 6 contents; text with non-ASCII characters",
    "thorough": "full product of all header and payload texts; octet strings up to length 7, all 12 algorithms",
}
HS = {"alg": "HS256"}
# (text, verdict): True = well-formed, False = must be rejected, None = not judged
J = []


def j(text, verdict):
    J.append((text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"), verdict))


def obj(**kw):
    return json.dumps(kw)


NOT_JSON = [b"", b" ", b"{", b"}", b"{]", b"{'a':1}", b'{"a":1', b'{"a":1}}', b'{"a":1} x', b'{"a":1,}', b'{,}', b'{"a"}', b'{"a":}',
            b'{a:1}', b'{1:1}', b'{"a":01}', b'{"a":+1}', b'{"a":.5}', b'{"a":1.}', b'{"a":0x1}', b'{"a":NaN}', b'{"a":Infinity}', b'{"a":-Infinity}',
            b'{"a":nul}', b'{"a":True}', b'{"a":"\x01"}', b'{"a":"\n"}', b'{"a":"\\x"}', b'{"a":"\\u12"}', b'{"a":"x}', b'//c\n{"a":1}', b'/**/{"a":1}',
            b'\xef\xbb\xbf{"a":1}', '{"a":1}'.encode("utf-16"), '{"a":1}'.encode("utf-16-le"), b'{"a":"\xff"}', b'\xff\xfe', b'\x80', b'{"a":"\xc3"}',
            b'{"a":"\xed\xa0\x80"}', b'\x00{"a":1}', b'{"a":1}\x00', b'undefined', b'{"a":[1,2}', b'[', b'{"a":1}{"a":1}', b'\xc0\xaf']
NOT_OBJECT = [b"null", b"true", b"false", b"0", b"1", b"-1.5", b'""', b'"x"', b'"{\\"alg\\":\\"HS256\\"}"', b"[]", b'["alg"]', b'[["alg","HS256"]]',
              b'[{"alg":"HS256","sub":"x"}]', b"{}", b" {} ", b"1e5", b"[1,2]", b'"alg"']


def with_alg(text, alg):
    """Turn {"a":...} into {"alg":..., "a":...} so that only the stated fault remains."""
    return text.replace(b'{"a"', b'{"alg":"%s","a"' % alg.encode(), 1) if b'{"a"' in text else text


def headers(alg):
    out = []
    for t in NOT_JSON:
        out.append((with_alg(t, alg), False))
    for t in NOT_OBJECT:
        out.append((t, False))
    good = [{"alg": alg}, {"typ": "JWT", "alg": alg}, {"alg": alg, "x": [1, {"y": None}]}, {"alg": alg, "x": ""}, {"alg": alg, "\u00e9": "\U0001f600"}]
    for g in good:
        out.append((json.dumps(g).encode(), True))
    out.append((json.dumps({"alg": alg}, indent=3).encode(), True))
    out.append((b'{"\\u0061lg":"%s"}' % alg.encode(), True))
    bad = [{"x": 1}, {"alg": None}, {"alg": ""}, {"alg": 1}, {"alg": True}, {"alg": [alg]}, {"alg": {alg: 1}}, {"alg": alg.lower()}, {"alg": alg + " "},
           {"alg": alg + "\x00"}, {"alg": "XS256"}, {"alg": "RSA"}, {"alg": "dir"}, {"Alg": alg}, {"alg": 1.5}, {"alg": []}, {"alg": {}}, {"alg": False},
           {"alg": alg, "kid": 1}, {"alg": alg, "kid": ""}, {"alg": alg, "kid": ["k"]}, {"alg": alg, "kid": {}}, {"alg": alg, "kid": True},
           {"alg": alg, "typ": 1}, {"alg": alg, "typ": ["JWT"]}, {"alg": alg, "typ": ""}, {"alg": alg, "cty": {}}, {"alg": alg, "cty": 0},
           {"alg": alg, "crit": "exp"}, {"alg": alg, "crit": []}, {"alg": alg, "crit": {}}, {"alg": alg, "crit": [1]}, {"alg": alg, "crit": [[]]},
           {"alg": alg, "crit": [None]}, {"alg": alg, "crit": [""]}, {"alg": alg, "crit": ["missing"]}, {"alg": alg, "crit": ["exp"], "exp": 1},
           {"alg": alg, "crit": [{}]}, {"alg": alg, "crit": 1}, {"alg": alg, "crit": ["b64"], "b64": True}, {"alg": alg, "kid": None, "typ": 5}]
    for b in bad:
        out.append((json.dumps(b).encode(), False))
    a = alg.encode()
    odd = [b'{"alg":"none","alg":"%s"}' % a, b'{"alg":"%s","x":%s}' % (a, b"1" * 5000), b'{"alg":"%s","x":1e999}' % a, b'{"alg":"%s","x":"\\ud800"}' % a]
    odd += [b'{"alg":"%s","x":%s}' % (a, b"[" * n + b"]" * n) for n in (100, 400, 990, 5000, 100000)]
    odd += [b'{"alg":"%s","x":%s}' % (a, b'{"a":' * n + b"1" + b"}" * n) for n in (330, 990, 50000)]
    for o in odd:
        out.append((o, None))
    out += [(b"[" * 100000, False), (b'{"a":' * 100000, False), (b"[" * 1000 + b"]" * 1000, False), (b"9" * 5000, False)]
    return out


def payloads():
    """(octets, verdict as JWT claims); as a JWS payload anything goes."""
    out = [(t, False) for t in NOT_JSON + NOT_OBJECT]
    for g in ({"sub": "x"}, {"a": [1, {"b": None}]}, {"aud": ["a", "b"]}, {"aud": "a", "iss": "i", "jti": "j", "exp": 2 ** 40, "nbf": 0, "iat": 0}):
        out.append((json.dumps(g).encode(), True))
    for b in ({"aud": 1}, {"aud": [1]}, {"aud": {}}, {"aud": [["a"]]}, {"exp": "x"}, {"exp": 1.5}, {"exp": True}, {"exp": [1]}, {"exp": {}}, {"nbf": "0"},
              {"iat": []}, {"iss": 1}, {"iss": ["i"]}, {"sub": 1}, {"sub": {}}, {"jti": 1}, {"jti": []}, {"exp": 1}, {"nbf": 2 ** 40}, {"iat": 2 ** 40}):
        out.append((json.dumps(b).encode(), False))
    out += [(b'{"a":%s}' % (b"[" * n + b"]" * n), None) for n in (100, 400, 990, 5000, 100000)]
    out += [(b'{"a":%s}' % (b'{"a":' * n + b"1" + b"}" * n), None) for n in (330, 990)]
    out += [(b'{"exp":%s}' % (b"1" * 5000), None), (b'{"a":1e999}', None), (b'{"a":"\\ud800"}', None), (b'{"exp":1e999}', None), (b"[" * 100000, False),
            (b'{"exp":"%s"}' % (b"x" * 100000), False), (b'{"a":1,"a":2}', None)]
    return out


def bad_encodings(raw):
    """Encodings of a segment that are not Base64 at all, plus (text, None) for variants not judged."""
    good = ref.b64b(raw)
    out = [(good + c, False) for c in (b"!", b" ", b"\n", b"\x00", b"\xff", b"*", b"%3D", b"\xc3\xa9", b"=A", b"~")]
    out += [(c + good, False) for c in (b"!", b" ", b"\n", b"\x00", b"\xff", b"=")]
    mid = len(good) // 2
    out += [(good[:mid] + c + good[mid:], False) for c in (b"!", b" ", b"\n", b"=", b"\x00", b"\xe9", b"$$", b"\t\t\t\t", b"====")]
    out += [(b"A", False), (b"AAAAA", False), (b"=", None), (b"====", None), (good + b"=", None), (good + b"==", None), (good + b"=" * 50, None), (raw, None)]
    n = good + b"A" * ((1 - len(good)) % 4)
    out.append((n if len(n) % 4 == 1 else n + b"A", False))
    return out


KEYS = [("HS256", "oct"), ("RS256", "RSA"), ("ES256", "EC")]


def key(alg):
    return psion_key(ref.key_for(alg), alg[:2] != "HS")


_SIG = {}


def signature(alg, msg):
    k = (alg, msg) if len(msg) < 1000 else None
    if k in _SIG:
        return _SIG[k]
    s = ref.b64b(ref.sign(alg, ref.key_for(alg), msg))
    if k:
        _SIG[k] = s
    return s


def algs(tier):
    return [a for a, _ in KEYS] if tier == "quick" else ref.ALGS


def cases(tier):
    out = []
    for a in algs(tier):
        for i in range(len(headers(a))):
            out.append(["product", a, i])
    for a, _ in KEYS:
        for seg in range(3):
            out.append(["encoding", a, seg])
        out.append(["count", a])
        out.append(["text", a])
    n = 5 if tier == "quick" else 7
    for first in range(6):
        for second in range(6):
            out.append(["octets", n, [first, second]])
    return out


def judge(ctx, res, verdict, **info):
    """verdict False: must be a JOSE error; True/None: a JOSE error or success."""
    ctx.trace()
    ctx.step()
    kind, v = res
    ctx.check(kind != "other", f"raised {type(v).__name__}, which is not a JOSE error", error=repr(v)[:300], **info)
    if verdict is False:
        ctx.check(kind == "jose", "a malformed token was accepted", got=repr(v)[:300], **info)
    ctx.outcome(type(v).__name__)


def show(b):
    return repr(b[:400]) + ("..." if len(b) > 400 else "")


def apis(ctx, tok, k, alg, jws_verdict, jwt_verdict, validates=(True, False), sig_ok=True, **info):
    for validate in validates:
        for pin in (alg, None):
            vs, vt = jws_verdict, jwt_verdict
            if validate and not sig_ok:
                vs = vt = False
            judge(ctx, jws(tok, k, pin, validate), vs, token=show(tok), api="jws", validate=validate, pinned=pin, **info)
            judge(ctx, jwt(tok, k, pin, validate), vt, token=show(tok), api="jwt", validate=validate, pinned=pin, **info)
    try:
        text = tok.decode("latin-1" if not tok.isascii() else "ascii")
    except UnicodeDecodeError:
        return
    judge(ctx, jwt(text, k, alg, True), False if jwt_verdict is False or not sig_ok else None, token=show(tok), api="jwt text", **info)


def run_case(ctx, case):
    clock.set_now(clock.BASE)
    mode = case[0]
    if mode == "product":
        _, alg, i = case
        h, hv = headers(alg)[i]
        k = key(alg)
        hs = ref.b64b(h)
        first = json.dumps({"alg": alg}).encode()
        todo = payloads()
        if hv is False and ctx.tier == "quick":
            todo = [t for t in todo if t[1] is not False][:6] + [t for t in todo if t[1] is False][::7]
        for p, pv in todo:
            # large texts are combined with small ones only
            if len(h) > 500 and p not in (b"", b"{}", b'{"sub": "x"}') or len(p) > 2000 and h != first:
                continue
            msg = hs + b"." + ref.b64b(p)
            big = len(msg) > 20000
            sigs = [(signature(alg, msg), True), (b"AAAA", False), (b"", False), (b"!!!", False), (b"A", False)]
            for sig, ok in sigs[:1] if big else sigs:
                jv = hv
                tv = False if hv is False or pv is False else None
                apis(ctx, msg + b"." + sig, k, alg, jv, tv, sig_ok=ok)
            # positive: a well-formed token with the right signature is read
            if hv and pv:
                ctx.check(jwt(msg + b"." + sigs[0][0], k, alg)[0] == "ok", "a well-formed token was rejected", token=show(msg))
            ctx.state(alg, i, p[:60], len(p))
    elif mode == "encoding":
        _, alg, seg = case
        k = key(alg)
        raws = [json.dumps({"alg": alg}).encode(), b'{"sub":"x"}']
        msg = ref.b64b(raws[0]) + b"." + ref.b64b(raws[1])
        if seg == 2:
            good = ref.unb64(signature(alg, msg))
            for enc, v in bad_encodings(good):
                apis(ctx, msg + b"." + enc, k, alg, v, v, validates=(True,))
                apis(ctx, msg + b"." + enc, k, alg, None, None, validates=(False,))
                ctx.state(alg, seg, enc)
            return
        for enc, v in bad_encodings(raws[seg]):
            parts = [ref.b64b(raws[0]), ref.b64b(raws[1])]
            parts[seg] = enc
            m = b".".join(parts)
            for sig in (signature(alg, m), signature(alg, msg), b""):
                apis(ctx, m + b"." + sig, k, alg, v, v)
            ctx.state(alg, seg, enc)
    elif mode == "count":
        alg = case[1]
        k = key(alg)
        h, p = ref.b64b(json.dumps({"alg": alg}).encode()), ref.b64b(b'{"sub":"x"}')
        s = signature(alg, h + b"." + p)
        pool = [h, p, s, b"", b"AAAA", b"e30"]
        for n in range(1, 4 if ctx.tier == "quick" else 5):
            for combo in itertools.product(pool, repeat=n):
                tok = b".".join(combo)
                ok = list(combo) == [h, p, s]
                form = None if n == 3 and combo[0] == h else False
                apis(ctx, tok, k, alg, form, None if form is None and combo[1] in (p, h) else False, sig_ok=ok)
                ctx.state(alg, tok)
        base = [h, p, s]
        for n in range(0, 8):
            for filler in (b"", b"AAAA", s, b"e30"):
                for tok in (b".".join(base[:n]), b".".join(base + [filler] * n), b".".join([filler] * n + base), b"." * n):
                    good = tok == b".".join(base)
                    apis(ctx, tok, k, alg, None if good else False, None if good else False, sig_ok=good)
    elif mode == "text":
        alg = case[1]
        k = key(alg)
        h, p = ref.b64(json.dumps({"alg": alg}).encode()), ref.b64(b'{"sub":"x"}')
        s = signature(alg, (h + "." + p).encode()).decode()
        good = f"{h}.{p}.{s}"
        odd = ["\u00e9", "\u6f22", "\U0001f600", "\ud800", "\x00", " ", "\n", "\u2028", "\uff21", "\u0130", "."]
        for o in odd:
            for i in range(0, len(good) + 1, 1 if ctx.tier == "thorough" else 7):
                for tok in (good[:i] + o + good[i:], good[:i] + o + good[i + 1:]):
                    for validate in (True, False):
                        sig_part = tok.count(".") == 2 and tok.startswith(h + "." + p + ".")
                        judge(ctx, jwt(tok, k, alg, validate), None if sig_part and not validate else (None if tok == good else False), token=tok,
                              validate=validate, api="jwt text")
                    ctx.state(alg, tok)
        for tok in ["", " ", ".", "..", "...", "a.b.c", "\u00e9.\u00e9.\u00e9", "{}", good.upper(), good + ".", "." + good, good[1:], "Bearer " + good]:
            for validate in (True, False):
                judge(ctx, jwt(tok, k, alg, validate), False, token=tok, validate=validate, api="jwt text")
    else:
        _, n, head = case
        alpha = [b".", b"e", b"3", b"=", b"\x00", b"\xff"]
        k = key("HS256")
        pre = b"".join(alpha[i] for i in head)
        for m in range(n - 1):
            for rest in itertools.product(alpha, repeat=m):
                for tok in {pre + b"".join(rest), pre[:1]}:
                    judge(ctx, jws(tok, k, "HS256"), False, token=repr(tok), api="jws")
                    judge(ctx, jws(tok, k, None, False), False, token=repr(tok), api="jws")
                    judge(ctx, jwt(tok, k, None, False), False, token=repr(tok), api="jwt")
                    ctx.state(tok)
        judge(ctx, jws(b"", k), False, token="''", api="jws")
