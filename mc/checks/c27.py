"""C27: encodings are exact inverses."""
import base64 as codec
import copy
import itertools
import json
from urllib.parse import unquote_to_bytes

from mc import consts
from mc.jose import call
from psion.webtools import FullDict, b64_to_int, base64url_decode, base64url_encode, int_to_b64, json_dumps, json_loads, urldecode, urlencode

ID = "C27"
ASSUMPTIONS = ["query parameters have non-empty names and values (a blank value counts as absent)", "texts hold no lone surrogates",
               "JSON numbers are finite", "assigning None to an existing member may keep or remove it",
               "dict.update and other inherited bulk operations of the none-free dictionary are not judged"]
BOUNDS = {
    "quick": "Base64url: all octet strings of up to 2 octets, all of 3 octets over 24 octets, patterns of every length to 300; integers: all below 2^17, "
             "2^k-1, 2^k, 2^k+1 for k to 4200; query encoding: every BMP character and 16 astral ones as name and as value, all texts of up to 3 characters "
             "over 22 special characters, all sets of up to 3 parameters over 9 texts, 6 base URLs; JSON: every BMP character in text and names, all "
             "values of depth 2 over 22 atoms, depth 3 over 6; none-free dictionary: all dictionaries of up to 3 members over 11 values, all assignment "
             "sequences of length 3; up to 1,001 parameters or members, texts and octets up to 100,004, integers up to 65,537 bits, nesting up to 100; all pairs of 28 names that the code itself might use",
    "thorough": "Base64url: all octet strings of 3 octets; integers below 2^22; texts of up to 4 special characters",
}
ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def ref_encode(data):
    """RFC 4648 section 5, bit by bit."""
    bits = "".join(f"{b:08b}" for b in data)
    return "".join(ALPHABET[int(bits[i:i + 6].ljust(6, "0"), 2)] for i in range(0, len(bits), 6)).encode()


def b64(ctx, data):
    ctx.trace()
    enc = base64url_encode(data)
    ctx.check(enc == ref_encode(data), "the encoding differs from RFC 4648", data=data, got=enc)
    ctx.check(base64url_decode(enc) == data, "decoding does not undo encoding", data=data, got=repr(base64url_decode(enc)))


def number(ctx, n):
    ctx.trace()
    enc = int_to_b64(n)
    raw = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    ctx.check(enc == ref_encode(raw), "the encoding of an integer differs from RFC 7518", n=n, got=enc)
    ctx.check(b64_to_int(enc) == n and b64_to_int(enc.decode()) == n, "decoding does not undo encoding", n=n, got=b64_to_int(enc))


URLS = ["https://a.example/cb", "https://a.example/cb?x=1", "https://a.example/cb?x=%26&y=+", "/rel", "custom:/cb?a=b&c=d", "https://a.example/\u00e9?u=\u6f22"]


def ref_query(text):
    """Decoding of a form-urlencoded text by hand."""
    out = []
    for part in text.split("&"):
        name, eq, value = part.partition("=")
        if not eq:
            raise ValueError(part)
        out.append(tuple(unquote_to_bytes(x.replace("+", " ")).decode("utf-8") for x in (name, value)))
    return out


def query(ctx, params, url):
    ctx.trace()
    full = urlencode(url, **params)
    sep = "&" if "?" in url else "?"
    ctx.check(isinstance(full, str) and full.startswith(url + sep), "the URL was altered", url=url, params=params, got=full)
    text = full[len(url) + 1:]
    ctx.check(all(c.isascii() and (c.isalnum() or c in "-._~*%+&=!'()") for c in text), "the encoded form has other characters", got=text)
    try:
        got = ref_query(text)
    except ValueError:
        got = None
    ctx.check(got == list(params.items()), "the encoded parameters are not form-urlencoded", params=params, got=text)
    ctx.check(urldecode(text) == params, "decoding does not undo encoding", params=params, got=urldecode(text))


def jsonv(ctx, v):
    ctx.trace()
    text = json_dumps(v)
    ctx.check(isinstance(text, str), "the encoding is not text", value=v)
    for src in (text, text.encode("utf-8")):
        got = json_loads(src)
        ctx.check(same(got, v), "decoding does not undo encoding", value=v, got=repr(got), text=text)
    ctx.check(same(json.loads(text), v), "the encoding is not standard JSON", value=v, text=text)
    for std in (json.dumps(v), json.dumps(v, ensure_ascii=False, indent=1)):
        ctx.check(same(json_loads(std), v), "standard JSON is decoded differently", value=v, text=std)


def same(a, b):
    """Equality that also compares types, so that 1, 1.0 and True differ."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


SPECIAL = ["a", "=", "&", "+", " ", "%", "#", "?", "/", "\\", '"', "'", ";", "\u00e9", "\u6f22", "\n", "\r", "\t", "\0", "2", "F", "\U0001d11e"]
WORDS = ["a", "b", "&", "a=b", "+ ", "%41", "\u00e9", "x&y=z", "\n"]
ATOMS = [None, True, False, 0, 1, -1, 1.5, -0.0, 1e300, 1e-300, 2 ** 53 + 1, 2 ** 64, -(10 ** 40), "", "a", "\u00e9", "\u6f22", '"', "\\", "\0\n\u2028\u007f", "null",
         "\U0001d11e"]
SMALL = [None, False, 0, "", "\u00e9", 1.5]


def cases(tier):
    deep = tier == "thorough"
    out = [["b64", i] for i in range(0, 256, 16)] + [["b64len"]]
    if deep:
        out += [["b64three", i] for i in range(256)]
    out += [["int", i] for i in range((1 << (22 if deep else 17)) >> 14)] + [["intpow"]]
    out += [["chars", i] for i in range(0, 0x10000, 0x1000)] + [["astral"]]
    out += [["text", i] for i in range(len(SPECIAL))] + [["sets", i] for i in range(len(WORDS))] + [["names"]]
    out += [["json2", i] for i in range(len(ATOMS))] + [["json3", i] for i in range(len(SMALL))]
    out += [["many"], ["long"], ["deep"]]
    out += [["dict", i] for i in range(len(VALUES))] + [["assign", i] for i in range(len(VALUES))]
    return out


VALUES = ["<none>", None, 0, "", False, [], {}, [None], {"a": None}, "x", {"a": [1]}]
NAMES = ["a", "b", "c"]
RESERVED = ("yy", "url", "uri", "base", "base_url", "endpoint", "location", "target", "path", "query", "params")  # may be named by the function itself


def full_dict(ctx, data, kwargs, form):
    ctx.trace()
    want = {k: v for k, v in {**data, **kwargs}.items() if v is not None}
    src = copy.deepcopy(data)
    d = FullDict(src, **copy.deepcopy(kwargs)) if form else FullDict(**copy.deepcopy({**data, **kwargs}))
    ctx.check(same(dict(d), want), "members other than exactly the null ones were dropped or changed", data=data, kwargs=kwargs, got=dict(d))
    ctx.check(isinstance(d, dict) and len(d) == len(want), "not a dictionary of the members", data=data)
    if form:
        ctx.check(src == data, "the original dictionary was changed", data=data, now=src)
        # changing either afterwards, at any depth, leaves the other alone
        for v in src.values():
            if isinstance(v, list):
                v.append("new")
            elif isinstance(v, dict):
                v["new"] = 1
                for w in v.values():
                    if isinstance(w, list):
                        w.append(2)
        src["z"] = 1
        ctx.check(same(dict(d), want), "structure is shared with the original", data=data, got=dict(d))
        src2 = copy.deepcopy(data)
        d = FullDict(src2)
        for v in d.values():
            if isinstance(v, list):
                v.append("new")
            elif isinstance(v, dict):
                v["new"] = 1
                for w in v.values():
                    if isinstance(w, list):
                        w.append(2)
        d["z"] = 1
        ctx.check(src2 == data, "structure is shared with the original", data=data, now=src2)


def run_case(ctx, case):
    mode = case[0]
    deep = ctx.tier == "thorough"
    ctx.state(case)
    if mode == "b64":
        for a in range(case[1], case[1] + 16):
            b64(ctx, bytes([a]))
            for b in range(256):
                b64(ctx, bytes([a, b]))
            some = [0, 1, 2, 3, 10, 13, 32, 43, 45, 47, 61, 63, 64, 95, 127, 128, 191, 192, 239, 240, 251, 252, 254, 255]
            if a in some:
                for b, c in itertools.product(some, repeat=2):
                    b64(ctx, bytes([a, b, c]))
    elif mode == "b64three":
        a = case[1]
        std = {}
        for b in range(256):
            for c in range(256):
                v = a << 16 | b << 8 | c
                enc = base64url_encode(bytes((a, b, c)))
                want = (ALPHABET[v >> 18] + ALPHABET[v >> 12 & 63] + ALPHABET[v >> 6 & 63] + ALPHABET[v & 63]).encode()
                if enc != want or base64url_decode(enc) != bytes((a, b, c)):
                    ctx.fail("three octets are not encoded exactly", data=bytes((a, b, c)), got=enc)
        ctx.trace(65536)
    elif mode == "b64len":
        b64(ctx, b"")
        for n in range(1, 301):
            for pat in (b"\0", b"\xff", b"\xfb\xff", bytes(range(256)), b"a", b"=", b"\xc3\xa9"):
                b64(ctx, (pat * n)[:n])
        # text is encoded as UTF-8
        for t in ("", "a", "\u00e9", "\u6f22\U0001d11e"):
            ctx.check(base64url_encode(t) == ref_encode(t.encode()), "text is encoded differently", text=t)
    elif mode == "int":
        for n in range(case[1] << 14, case[1] + 1 << 14):
            number(ctx, n)
    elif mode == "intpow":
        for k in range(4201):
            for n in ((1 << k) - 1, 1 << k, (1 << k) + 1):
                number(ctx, n)
        for bad in (-1, -256, 1.5, "1", None, b"1"):
            ctx.check(call(int_to_b64, bad)[0] != "ok", "something that is not a natural number was encoded", value=bad)
    elif mode == "chars":
        for cp in range(case[1], case[1] + 0x1000):
            if 0xD800 <= cp < 0xE000:
                continue
            c = chr(cp)
            query(ctx, {"p": c}, URLS[0])
            query(ctx, {c: "v" + c}, URLS[1])
            jsonv(ctx, {c: c, "x": [c + "y"]})
    elif mode == "astral":
        for cp in (0x10000, 0x10001, 0x103FF, 0x1D11E, 0x1F600, 0x1F9D1, 0x20000, 0x2FFFF, 0xE0001, 0xFFFFF, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF):
            c = chr(cp)
            for url in URLS:
                query(ctx, {"p": c, c: "x"}, url)
            jsonv(ctx, {c: c + c})
    elif mode == "text":
        a = SPECIAL[case[1]]
        for n in range(4 if deep else 3):
            for rest in itertools.product(SPECIAL, repeat=n):
                t = a + "".join(rest)
                query(ctx, {"state": t}, URLS[len(t) % 2])
                query(ctx, {t: "v", "w": t} if t != "w" else {t: "v"}, URLS[2])
                if n < 2:
                    jsonv(ctx, {t: t})
                    for url in URLS:
                        query(ctx, {"state": t, "code": "c"}, url)
    elif mode == "names":
        # names that the code itself might use
        names = ["url", "self", "cls", "data", "params", "query", "safe", "doseq", "encoding", "errors", "quote_via", "separator", "key", "value", "kwargs", "args",
                 "k", "v", "_data", "None", "class", "a b", "a-b", "0", "__init__", "keys", "items", "update"]
        for a, b in itertools.product(names, repeat=2):
            for url in URLS:
                query(ctx, {a: "x", b: "y&=z"}, url)
            got = FullDict({"z": 1}, **{a: 1, b: 2})
            ctx.check(got == {"z": 1, a: 1, b: 2}, "the dictionary lost a member", names=(a, b), got=dict(got))
            ctx.check(FullDict(**{a: 1, b: None}) == ({} if a == b else {a: 1}), "null-valued members are not dropped exactly", names=(a, b))
            ctx.check(FullDict({a: 1, b: None}, c=None) == ({} if a == b else {a: 1}), "null-valued members are not dropped exactly", names=(a, b))
    elif mode == "sets":
        for n in range(3):
            for rest in itertools.product(WORDS, repeat=n):
                names = [WORDS[case[1]], *rest]
                if len(set(names)) < len(names):
                    continue
                for vals in itertools.product(WORDS, repeat=n + 1):
                    query(ctx, dict(zip(names, vals)), URLS[case[1] % 6])
                    # null-valued parameters are left out
                    if n:
                        got = urlencode("u", **dict(zip(names, vals)), zz=None)
                        ctx.check(urldecode(got[2:]) == dict(zip(names, vals)), "a null parameter was encoded", got=got)
    elif mode == "json2":
        a = ATOMS[case[1]]
        jsonv(ctx, a)
        for b in ATOMS:
            for v in ([a], [a, b], {"a": a, "b": b}, [[a], {"b": b}], {"a": [b, a]}, {"a": {"b": b}, "c": a}):
                jsonv(ctx, v)
            if isinstance(a, str):
                jsonv(ctx, {a: b})
        for bad in (b"", "", "{", "[1,]", "{'a':1}", "NaN", "[Infinity]", "-Infinity", "{\"a\":NaN}", "nul", "01", "\"\n\"", b"\xff", "1 2"):
            kind, v = call(json_loads, bad)
            ctx.check(kind != "ok", "something that is not JSON was decoded", text=repr(bad), got=repr(v))
    elif mode == "json3":
        a = SMALL[case[1]]
        for b, c, d in itertools.product(SMALL, repeat=3):
            for v in ([[[a, b], c], d], {"a": {"b": {"c": a}, "d": b}, "e": [c, [d]]}, [{"a": [b, {"c": c}]}, a, d], {"x": [[[a]], [[b]], {"y": [c, d]}]}):
                jsonv(ctx, v)
    elif mode == "many":
        for t in consts.NEW_TEXTS:
            for v in (t, "x" + t, t + "x", t + t, "x" + t + "x"):
                for u in URLS:
                    query(ctx, {"a": v, "b": "1"}, u)
                    if v not in RESERVED:
                        query(ctx, {v: "1", "yy": v}, u)
                jsonv(ctx, v)
                jsonv(ctx, {v: [v, {v: None}]})
                full_dict(ctx, {v: v, "yy": None}, {}, True)
        for n in [*range(1, 70), *(x + d for x in (100, 128, 256, 512, 1000) for d in (-1, 0, 1)), *consts.around(5000, 70)]:
            query(ctx, {f"p{i}": f"v{i}" for i in range(n)}, URLS[n % 6])
            query(ctx, {chr(0x100 + i): "&=" * (i % 3) + "x" for i in range(n)}, URLS[n % 6])
            jsonv(ctx, {f"p{i}": i for i in range(n)})
            jsonv(ctx, list(range(n)))
            full_dict(ctx, {f"p{i}": None if i % 3 == 1 else i for i in range(n)}, {}, True)
            full_dict(ctx, {f"p{i}": [i] for i in range(n)}, {f"q{i}": None if i % 2 else 0 for i in range(n)}, True)
    elif mode == "long":
        for n in [*range(300, 340), *(x + d for x in (511, 1023, 2047, 3071, 4095, 8191, 16383, 65535, 100001) for d in range(4)), *consts.around(300000, 300)]:
            for pat in (b"\0", b"\xff", bytes(range(256))):
                data = (pat * n)[:n]
                enc = base64url_encode(data)
                ctx.trace()
                ctx.check(enc == codec.urlsafe_b64encode(data).rstrip(b"=") and base64url_decode(enc) == data, "a long octet string is not encoded exactly", length=n)
            t = ("x\u00e9&+% " * n)[:n]
            jsonv(ctx, {t: t})
            if n < 20000:
                query(ctx, {"state": t}, URLS[n % 6])
                query(ctx, {t: "v"}, URLS[n % 6])
        for k in (8191, 8192, 8193, 16384, 32768, 65536):
            for n in ((1 << k) - 1, 1 << k, (1 << k) + 1):
                enc = int_to_b64(n)
                ctx.check(b64_to_int(enc) == n and base64url_decode(enc) == n.to_bytes((n.bit_length() + 7) // 8, "big"), "a long integer is not encoded exactly", bits=k)
        for k in range(1, 300):
            for s in ("1", "9", "-8"):
                jsonv(ctx, int(s + "0" * k))
                jsonv(ctx, [int(s + "7" * k)])
    elif mode == "deep":
        for n in (1, 2, 3, 5, 8, 10, 16, 20, 32, 50, 64, 100):
            v, w, d = 1, "x", {"n": None}
            for i in range(n):
                v, w, d = [v, i], {"k": w, "n": None}, {"k": [d], "n": None}
            jsonv(ctx, v)
            jsonv(ctx, w)
            jsonv(ctx, d)
            full_dict(ctx, {"a": v, "b": w, "c": d, "d": None}, {}, True)
            src = {"a": v, "b": w}
            made, inner, orig = FullDict(src), None, None
            inner, orig = made["a"], src["a"]
            while isinstance(inner, list):
                ctx.check(inner is not orig, "structure is shared with the original", depth=n)
                inner, orig = inner[0], orig[0]
    elif mode == "dict":
        first = VALUES[case[1]]
        for rest in itertools.product(VALUES, repeat=2):
            vals = [first, *rest]
            data = {n: v for n, v in zip(NAMES, vals) if v != "<none>"}
            for split in itertools.product((0, 1), repeat=3):
                full_dict(ctx, {n: v for n, v in data.items() if split[NAMES.index(n)]}, {n: v for n, v in data.items() if not split[NAMES.index(n)]}, True)
            full_dict(ctx, data, {}, False)
            full_dict(ctx, data, {"a": 5, "d": None}, True)
            full_dict(ctx, data, {"a": None}, True)
        ctx.check(dict(FullDict()) == {} and dict(FullDict(None)) == {} and dict(FullDict({})) == {}, "an empty dictionary is not empty")
        for self_like in ("self", "data", "_data", "cls"):
            ctx.check(dict(FullDict({self_like: 1})) == {self_like: 1} and dict(FullDict({}, **{self_like: 1})) == {self_like: 1}, "a member name is lost",
                      name=self_like)
    else:
        first = VALUES[case[1]]
        if first == "<none>":
            return
        values = VALUES[1:]
        for (n1, n2, n3) in itertools.product(NAMES[:2], repeat=3):
            for v2, v3 in itertools.product(values, repeat=2):
                d = FullDict({"a": 1})
                model = {"a": {1}}  # possible values by member
                for n, v in ((n1, first), (n2, v2), (n3, v3)):
                    d[n] = v
                    ctx.step()
                    if v is not None:
                        model[n] = [v]
                    elif n in model:
                        model[n] = list(model[n]) + ["<gone>"]
                    for k in NAMES:
                        if k not in model:
                            ctx.check(k not in d, "a null member was stored", member=k, got=dict(d))
                        elif k in d:
                            ctx.check(d[k] is not None and d[k] in model[k], "an assigned member differs", member=k, got=dict(d), want=repr(model[k]))
                        else:
                            ctx.check("<gone>" in model[k], "an assigned member is missing", member=k, got=dict(d))
                    ctx.check(None not in d.values(), "a null member was stored", got=dict(d))
                ctx.trace()
