"""C24: a key set identifies every key unambiguously."""
import itertools
import json

from mc import consts, ref
from mc.jose import call
from mc.keys import key, scratch
from psion.jose.jwk import JsonWebKey, JsonWebKeySet

ID = "C24"
ASSUMPTIONS = ["the empty string as ID, and members of the set besides keys, are not judged", "keys with the same material under different IDs are allowed"]
BOUNDS = {
    "quick": "all lists of up to 4 keys over 9 IDs (near misses, absent, null, non-string) from objects and from JSON, 3 assignments of key types; look-up of "
             "20 IDs in each accepted set; 60 malformed values for the set, its list and its entries at each position; all permutations of 4 distinct keys, "
             "public and private; 18 kinds of metadata at each position of <=3 keys and all pairs; sets of 5..257 keys with a repeated ID at each pair "
             "of 5 edge positions; IDs of 1..5000 characters that differ at one place; look-up by 23 values that are no texts or look like the 16 IDs of all sets of <=3",
    "thorough": "all lists of up to 5 keys",
}
GOOD = ["a", "b", "A", "a ", "aa", "\u00e9", "1"]
IDS = GOOD[:6] + ["<absent>", None, 1]
PROBES = GOOD + ["B", " a", "", "c", "ab", "None", "0", "e\u0301", "k", "kid", None, 1, 0, True]
TYPES = [["oct:25"], ["ec:P-256:plain", "ec:P-256:plain2", "oct:25"], ["rsa:2:plain", "oct:25", "ec:P-521:x0", "oct:26"]]
JUNK = [None, [], {}, "", "x", 0, 1, True, 1.5, [1], ["x"], [None], [[]], [{}], {"keys": 1}, {"keys": []}, {"keys": None}, {"keys": {}}, {"keys": ""},
        {"keys": "x"}, {"keys": [None]}, {"keys": [1]}, {"keys": ["x"]}, {"keys": [[]]}, {"keys": [{}]}, {"keys": [[{}]]}, {"key": []}, {"KEYS": []},
        {"keys": True}, {"keys": 0}, {"keys": {"a": 1}}]
BAD_KEYS = [None, 0, 1, "", "x", [], [1], {}, {"kid": "z"}, {"kty": "oct", "kid": "z"}, {"kty": "oct", "k": "", "kid": "z"}, {"kty": "oct", "k": 5, "kid": "z"},
            {"kty": "nope", "k": "AAAA", "kid": "z"}, {"kty": None, "kid": "z"}, {"kty": "EC", "kid": "z"}, {"kty": "RSA", "n": "AQAB", "kid": "z"},
            {"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "kid": "z"}, {"kty": "oct", "k": "AAAA"}, {"kty": "oct", "k": "AAAA", "kid": None},
            {"kty": "oct", "k": "AAAA", "kid": 1}, {"kty": "oct", "k": "AAAA", "kid": ["a"]}, {"kty": "oct", "k": "AAAA", "kid": {}},
            {"kty": "oct", "k": "AAAA", "kid": True}]


def jwk(types, i, kid):
    j = key(types[i % len(types)]).jwk(False, n_=i)
    if kid != "<absent>":
        j["kid"] = kid
    return j


EXTRA = [{"use": "sig"}, {"use": "enc"}, {"use": ""}, {"use": "other"}, {"alg": "HS256"}, {"alg": "RSA-OAEP"}, {"alg": "none"}, {"key_ops": ["verify"]}, {"key_ops": ["encrypt"]},
         {"key_ops": []}, {"exp": 0}, {"revoked": True}, {"x5c": ["AA"]}, {"x5t": "AA"}, {"x5u": "https://x.example"}, {"x": 1} , {"status": "disabled"}, {"ext": False}]


def valid(ids):
    return bool(ids) and all(isinstance(i, str) and i != "<absent>" for i in ids) and len(set(ids)) == len(ids)


CACHE = {}


def obj(j):
    t = json.dumps(j, sort_keys=True)
    if t not in CACHE:
        CACHE[t] = JsonWebKey(json.loads(t))
    return CACHE[t]


def judge(ctx, jwks, ids, how, probes=None):
    ctx.trace()
    ctx.step()
    if how == "objects":
        kind, s = call(JsonWebKeySet, [obj(j) for j in jwks])
    else:
        kind, s = call(JsonWebKeySet.load, {"keys": json.loads(json.dumps(jwks))})
    ok = valid(ids)
    ctx.check((kind == "ok") == ok, "a valid key set was rejected" if ok else "an ambiguous key set was accepted", ids=ids, how=how, error=repr(s))
    if not ok:
        ctx.check(kind == "jose", "rejected with an exception that is not a JOSE error", ids=ids, how=how, error=repr(s))
        ctx.outcome("rejected")
        return
    ctx.outcome("accepted")
    for p in probes or PROBES:
        kind, k = call(s.get_key, p)
        if isinstance(p, str) and p in ids:
            ctx.check(kind == "ok" and k is not None and k.dump(False) == jwks[ids.index(p)], "the look-up gave another key", id=p, ids=ids,
                      got=repr(k))
        else:
            ctx.check(kind == "ok" and k is None, "an unknown ID was found, or raised", id=p, ids=ids, got=repr(k))
    dumped = s.dump(False)
    ctx.check(dumped == {"keys": jwks}, "the dump differs", got=dumped, ids=ids)
    again = JsonWebKeySet.load(json.loads(json.dumps(dumped)))
    ctx.check(again.dump(False) == dumped and again.dump(True) == s.dump(True), "the reloaded set differs", ids=ids)
    ctx.check([k.data.get("kid") for k in again.keys] == ids, "the order changed", ids=ids)


def cases(tier):
    top = 5 if tier == "thorough" else 4
    out = [["lists", t, n, first] for t in range(3) for n in range(1, top + (t == 0)) for first in range(len(IDS)) if n < top or t == 0]
    out += [["junk"], ["bad"], ["perm"], ["meta"], ["many"], ["lookup"]]
    return out


def run_case(ctx, case):
    with scratch():
        if case[0] == "lists":
            _, t, n, first = case
            for rest in itertools.product(range(len(IDS)), repeat=n - 1):
                ids = [IDS[i] for i in (first, *rest)]
                jwks = [jwk(TYPES[t], i, kid) for i, kid in enumerate(ids)]
                if None in ids:  # FullDict drops it from the dump; such sets are rejected anyway
                    pass
                judge(ctx, jwks, ids, "objects")
                if n < 4 or t == 0 and ctx.tier == "thorough":
                    judge(ctx, jwks, ids, "load")
                ctx.state(t, ids)
        elif case[0] == "junk":
            for v in JUNK:
                for fn in (JsonWebKeySet, JsonWebKeySet.load):
                    if fn is JsonWebKeySet and isinstance(v, dict) and v == {"keys": 1}:
                        continue
                    kind, s = call(fn, v)
                    ctx.trace()
                    ctx.check(kind == "jose", "a malformed key set was accepted or raised another exception", value=v, fn=fn.__name__, got=repr(s))
                    ctx.state(repr(v), fn.__name__)
        elif case[0] == "bad":
            good = [jwk(TYPES[1], i, f"g{i}") for i in range(3)]
            for bad in BAD_KEYS:
                for n in range(1, 4):
                    for pos in range(n):
                        lst = good[:n]
                        lst[pos] = bad
                        kind, s = call(JsonWebKeySet.load, {"keys": lst})
                        ctx.trace()
                        ctx.check(kind == "jose", "a key set with an invalid key was accepted or raised another exception", keys=lst, got=repr(s))
                        objs = [JsonWebKey(j) for j in good[:n]]
                        objs[pos] = bad  # not a key object
                        kind, s = call(JsonWebKeySet, objs)
                        ctx.trace()
                        ctx.check(kind == "jose", "a key set with something that is not a key was accepted or raised another exception", entry=bad,
                                  got=repr(s))
                    ctx.state(repr(bad), n)
        elif case[0] == "meta":
            # whatever a key says about itself, it is kept and found
            for t in range(3):
                for n in (1, 2, 3):
                    for pos in range(n):
                        for extra in EXTRA:
                            jwks = [jwk(TYPES[t], i, GOOD[i]) for i in range(n)]
                            if "x" in extra and jwks[pos]["kty"] == "EC":
                                continue
                            jwks[pos].update(extra)
                            for how in ("objects", "load"):
                                judge(ctx, jwks, GOOD[:n], how)
                            ctx.state(t, n, pos, extra)
                for e1, e2 in itertools.product(EXTRA, repeat=2):
                    jwks = [jwk(TYPES[0], i, GOOD[i]) for i in range(2)]
                    jwks[0].update(e1)
                    jwks[1].update(e2)
                    judge(ctx, jwks, GOOD[:2], "load", GOOD)
        elif case[0] == "lookup":
            # IDs that look like other values: only the very text finds them
            odd = ["1", "0", "None", "True", "False", "", "1.0", "-1", "b'1'", "a", "null", "true", "00", "01", "[]", "()", "1 "]
            probes = odd + [1, 0, None, True, False, 1.0, 0.0, -1, b"1", b"a", b"", b"None", (), ("a",), 10, 1.5, frozenset(), "2", "1.", "+1", " 1", "\u0661", "\uff11"]
            pool = [o for o in odd if o]
            for n in (1, 2, 3):
                for ids in itertools.permutations(pool, n):
                    jwks = [jwk(["oct:25", "oct:26"], i, kid) for i, kid in enumerate(ids)]
                    judge(ctx, jwks, list(ids), "objects", probes)
                    if n < 3:
                        judge(ctx, jwks, list(ids), "load", probes)
                    ctx.state("lookup", ids)
        elif case[0] == "many":
            # sizes around powers of two, a repeated ID at any pair of edge positions, long IDs that differ in one character
            for n in (5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 128, 129, 256, 257, *consts.around(1200, 5)):
                ids = [f"k{i}" for i in range(n)]
                jwks = [jwk(["oct:25", "oct:26"], i, kid) for i, kid in enumerate(ids)]
                for how in ("objects", "load"):
                    judge(ctx, jwks, ids, how, ids + ["k", f"k{n}", "K0", "0", 0, None, "", n - 1])
                edge = sorted({0, 1, n // 2, n - 2, n - 1})
                for a, b in itertools.combinations(edge, 2):
                    i2, j2 = list(ids), [dict(j) for j in jwks]
                    i2[b] = ids[a]
                    j2[b]["kid"] = ids[a]
                    for how in ("objects", "load"):
                        judge(ctx, j2, i2, how)
                ctx.state("many", n)
            for n in (1, 2, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000, *consts.around(20000)):
                base = "i" * n
                ids = [base, base + "j", base[:-1] + "k", "k" + base[1:] if n > 1 else "l", base[:n // 2] + "x" + base[n // 2 + 1:] if n > 2 else "m", base + " "]
                jwks = [jwk(["oct:25", "oct:26"], i, kid) for i, kid in enumerate(ids)]
                for how in ("objects", "load"):
                    judge(ctx, jwks, ids, how, ids + [base[:-1] or "q", base + "z", base.upper(), " " + base, base * 2])
                    judge(ctx, jwks[1:], ids[1:], how, ids)
                ctx.state("long", n)
        else:
            for t in range(3):
                base = [jwk(TYPES[t], i, GOOD[i]) for i in range(4)]
                for perm in itertools.permutations(base):
                    for how in ("objects", "load"):
                        judge(ctx, list(perm), [j["kid"] for j in perm], how)
                    ctx.state(t, [j["kid"] for j in perm])
                # sets do not influence each other
                a, b = base[:2], [dict(base[2], kid=base[0]["kid"]), base[3]]
                s1, s2 = JsonWebKeySet([obj(j) for j in a]), JsonWebKeySet([obj(j) for j in b])
                ctx.check(s1.get_key(base[0]["kid"]).dump(False) == a[0] and s2.get_key(base[0]["kid"]).dump(False) == b[0],
                          "one key set answered for another")
                ctx.check(s1.get_key(base[3]["kid"]) is None and s2.get_key(base[1]["kid"]) is None, "one key set answered for another")
