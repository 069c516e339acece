"""C21: every required claim option is enforced."""
import itertools
import json

from mc import clock, consts, ref
from mc.near import near
from mc.jose import call, jwt, psion_key
from psion.jose.jwt import JsonWebTokenClaims

ID = "C21"
ASSUMPTIONS = ["a claim whose value is null counts as absent; an option's null value and empty list of values express no requirement and are not used",
               "boolean and integer values are not mixed in one comparison", "an absent claim does not equal a required value"]
BOUNDS = {
    "quick": "one claim: 17 values x 26 options; two claims: all ordered pairs of options x 9 values each; three claims: all ordered triples "
             "over 9 options in all 6 orders x 4 values each; registered claims as subjects; "
             "null claims; options that are no dictionaries next to real ones; near misses of required values and of claim names; 4..101 options with one unsatisfied at each place in 3 orders; lists of 4..101 allowed values and claim elements; through the claims object and token decoding",
    "thorough": "two claims with all values and options; triples over 14 options x 5 values",
}
ABSENT = "<absent>"
VALUES = [ABSENT, "a", "b", "c", "", "ab", 0, 1, 2, 1.5, [], ["a"], ["a", "b"], ["b", "c"], ["c"], {"k": "a"}, [["a"]]]
OPTIONS = [
    {}, {"essential": True}, {"essential": False}, {"value": "a"}, {"value": ""}, {"value": 0}, {"value": 1}, {"value": ["a"]}, {"value": []},
    {"value": {"k": "a"}}, {"values": ["a"]}, {"values": ["a", "b"]}, {"values": ["c", "b"]}, {"values": [0, 1]}, {"values": [""]}, {"values": [["a"]]},
    {"essential": True, "value": "a"}, {"essential": True, "values": ["a", "c"]}, {"essential": False, "value": "a"}, {"essential": False, "values": ["b"]},
    {"value": "a", "values": ["a", "b"]}, {"value": "a", "values": ["b"]}, {"value": ["a", "b"], "values": ["b"]}, {"values": ["a"], "value": "b"},
    {"essential": True, "value": "b", "values": ["b", "c"]}, {"values": [0, "", "a"]}, {"values": ["c", ["a", "b"]]},
]
CORE = [1, 3, 11, 12, 16, 17, 20, 21, 15]
CORE_MORE = CORE + [2, 5, 14, 22, 26]
NAMES = ["one", "two", "three"]


def satisfied(value, opt):
    if opt.get("essential") and value is ABSENT:
        return False
    if "value" in opt and (value is ABSENT or value != opt["value"]):
        return False
    if "values" in opt:
        if value is ABSENT:
            return False
        if value not in opt["values"] and not (isinstance(value, list) and any(v in opt["values"] for v in value)):
            return False
    return True


def probe(ctx, claims, options, decode=False):
    """claims, options: lists of (name, value)."""
    data = {"z": "z", **{n: json.loads(json.dumps(v)) for n, v in claims if v is not ABSENT}}
    values = dict(claims)
    opts = {n: json.loads(json.dumps(o)) for n, o in options}
    want = all(satisfied(values.get(n, ABSENT), o) for n, o in options)
    ctx.trace()
    ctx.step()
    kind, v = call(JsonWebTokenClaims, dict(data), opts)
    info = {"claims": data, "options": options}
    ctx.check((kind == "ok") == want, "rejected although every option is satisfied" if want else "accepted although an option is not satisfied",
              error=repr(v), **info)
    ctx.check(want or kind == "jose", "rejected with an exception that is not a JOSE error", error=repr(v), **info)
    if want:
        ctx.check(dict(v) == data, "the claims were altered", got=dict(v), **info)
    ctx.outcome("accepted" if want else "rejected")
    if decode:
        tok = ref.jws("HS256", ref.oct_key(0), {"alg": "HS256"}, json.dumps(data).encode())
        kind, v = jwt(tok, psion_key(ref.oct_key(0)), "HS256", options=opts)
        ctx.trace()
        ctx.check((kind == "ok") == want, "decoding disagrees with the options", error=repr(v), want=want, **info)
        if want:
            ctx.check(dict(v.claims) == data, "the claims were altered", got=dict(v.claims), **info)


def cases(tier):
    out = [["one", i] for i in range(len(OPTIONS))]
    for i in range(len(OPTIONS)):
        for j in range(len(OPTIONS)):
            out.append(["two", i, j])
    core = CORE_MORE if tier == "thorough" else CORE
    for combo in itertools.product(core, repeat=2):
        out.append(["three", list(combo)])
    out.append(["registered"])
    for what in ("null", "nondict", "nearvalue", "nearname", "typed", "textvalues"):
        out.append([what])
    out.append(["history"])
    out += [["many", n] for n in MANY]
    out += [["allowed", n] for n in MANY]
    return out


MANY = sorted({4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 25, 31, 32, 33, 40, 50, 51, 63, 64, 65, 100, 101, *consts.around(300, 4)})


def many(ctx, n):
    """n options, of which one at any place is not satisfied; option names in sorted order, reversed and shuffled."""
    names = [f"c{i:03d}" for i in range(n)]
    orders = [names, names[::-1], names[1::2] + names[::2]]
    kinds = [({"essential": True}, ABSENT), ({"value": "a"}, "b"), ({"values": ["a", "b"]}, "c"), ({"essential": True, "value": "a"}, ABSENT)]
    for order in orders:
        for base in ({"essential": True}, {"value": "a"}, {}):
            probe(ctx, [(x, "a") for x in names], [(x, base) for x in order], True)
            for i in range(n):
                for opt, value in kinds if n <= 33 else kinds[:2]:
                    probe(ctx, [(x, value if x == names[i] else "a") for x in names], [(x, opt if x == names[i] else base) for x in order])
            ctx.state("many", n, order[0], json.dumps(base))
    # several options of which all but one are broken, and claims far outnumbering the options
    probe(ctx, [(x, "b") for x in names[1:]], [(x, {"value": "a"}) for x in names])
    for i in (0, n // 2, n - 1):
        for v in ("a", "b", ABSENT):
            probe(ctx, [(x, v if x == names[i] else "a") for x in names], [(names[i], {"value": "a"})], True)


def allowed(ctx, n):
    """n allowed values, and claims that are lists of n elements."""
    vals = [f"v{i}" for i in range(n)]
    for i in range(n):
        probe(ctx, [("one", vals[i])], [("one", {"values": vals})], i in (0, n - 1))
        probe(ctx, [("one", ["x", vals[i]])], [("one", {"values": vals})])
        probe(ctx, [("one", [f"x{j}" if j != i else "y" for j in range(n)])], [("one", {"values": ["y", "z"]})], i in (0, n - 1))
        probe(ctx, [("one", [f"x{j}" if j != i else "y" for j in range(n)])], [("one", {"values": ["q", "z"]})])
        probe(ctx, [("one", vals)], [("one", {"value": vals[:i] + ["q"] + vals[i + 1:]})])
    probe(ctx, [("one", "v")], [("one", {"values": vals})], True)
    probe(ctx, [("one", f"v{n}")], [("one", {"values": vals})], True)
    probe(ctx, [("one", vals)], [("one", {"value": vals})], True)
    probe(ctx, [("one", vals)], [("one", {"value": vals[::-1]})], True)
    probe(ctx, [("one", vals)], [("one", {"value": vals[:-1]})], True)
    probe(ctx, [("one", vals[:-1])], [("one", {"value": vals})], True)
    for text in ("a" * n, "a" * (n - 1) + "b", "b" + "a" * (n - 1)):
        for want in ("a" * n, "a" * (n + 1), "a" * (n - 1), "b" + "a" * (n - 1)):
            probe(ctx, [("one", text)], [("one", {"value": want})], True)
            probe(ctx, [("one", text)], [("one", {"values": ["q", want]})], True)
    ctx.state("allowed", n)


def run_case(ctx, case):
    clock.set_now(clock.BASE)
    mode = case[0]
    deep = ctx.tier == "thorough"
    if mode in ("many", "allowed"):
        (many if mode == "many" else allowed)(ctx, case[1])
    elif mode == "one":
        opt = OPTIONS[case[1]]
        for v in VALUES:
            probe(ctx, [("one", v)], [("one", opt)], True)
            probe(ctx, [("one", v), ("two", "a")], [("one", opt)], True)
            ctx.state(repr(v), case[1])
        for v in (True, False):
            for o in ({"value": True}, {"value": False}, {"values": [False]}, {"values": [True, False]}, {"essential": True}, {"essential": True, "value": v}):
                probe(ctx, [("one", v)], [("one", o)], True)
    elif mode == "two":
        a, b = OPTIONS[case[1]], OPTIONS[case[2]]
        vals = VALUES if deep else [ABSENT, "a", "b", "", 0, 1, ["a"], ["b", "c"], []]
        for v, w in itertools.product(vals, repeat=2):
            probe(ctx, [("one", v), ("two", w)], [("one", a), ("two", b)], deep or v == w or v in ("a", ABSENT))
            ctx.state(repr(v), repr(w), case)
    elif mode == "three":
        vals = [ABSENT, "a", ["a", "b"], "c"] + ([["c"]] if deep else [])
        core = CORE_MORE if deep else CORE
        for k in core:
            opts = [OPTIONS[case[1][0]], OPTIONS[case[1][1]], OPTIONS[k]]
            pairs = list(zip(NAMES, opts))
            for vs in itertools.product(vals, repeat=3):
                claims = list(zip(NAMES, vs))
                for order in itertools.permutations(pairs):
                    probe(ctx, claims, list(order))
                ctx.state(case, k, repr(vs))
    elif mode == "null":
        for o in OPTIONS:
            want = satisfied(ABSENT, o)
            for data in ({"z": 1, "one": None}, {"one": None, "z": 1}):
                for api in (0, 1):
                    if api:
                        tok = ref.jws("HS256", ref.oct_key(0), {"alg": "HS256"}, json.dumps(data).encode())
                        kind, v = jwt(tok, psion_key(ref.oct_key(0)), "HS256", options={"one": o})
                    else:
                        kind, v = call(JsonWebTokenClaims, dict(data), {"one": o})
                    ctx.trace()
                    ctx.check((kind == "ok") == want, "a null claim was judged like a present one", claims=data, options=o, decoded=bool(api), error=repr(v))
            ctx.state("null", repr(o))
    elif mode == "nondict":
        for odd in (None, "x", 1, True, [], ["essential"], "essential", 0):
            for o in OPTIONS:
                for v in VALUES[:8]:
                    for order in range(3):
                        opts = [("two", odd), ("three", odd)]
                        opts.insert(order, ("one", o))
                        data = {"z": 1, "two": "x", **({} if v is ABSENT else {"one": v})}
                        want = satisfied(v, o)
                        kind, got = call(JsonWebTokenClaims, data, dict(opts))
                        ctx.trace()
                        # whether an option that is no dictionary is an error is not judged
                        ctx.check(want or kind != "ok", "accepted although an option is not satisfied", claims=data, options=opts)
                        ctx.outcome("next to a non-dictionary option: " + kind)
            ctx.state("nondict", repr(odd))
    elif mode in ("nearvalue", "nearname"):
        base = "Aa-1_y"
        for x in near(base):
            if x == "z":
                continue  # a claim of every probe
            if mode == "nearname":
                for o in ({"essential": True}, {"value": "v"}, {"values": ["v", "w"]}):
                    probe(ctx, [(x, "v")], [(base, o)], True)
                    probe(ctx, [(base, "v")], [(x, o)], True)
                    probe(ctx, [(base, "v"), (x, "w")], [(x, {"value": "w"}), (base, o)], True)
                    probe(ctx, [(base, "v"), (x, "w")], [(x, {"value": "v"}), (base, o)], True)
                ctx.state("nearname", x)
                continue
            for a, b in ((base, x), (x, base), (x, x)):
                for o in ({"value": b}, {"values": [b]}, {"values": ["q", b]}, {"essential": True, "value": b}, {"value": [b]}, {"value": {"k": b}}):
                    for v in (a, [a], [a, "r"], {"k": a}):
                        probe(ctx, [("one", v)], [("one", o)], True)
                for name in ("iss", "sub", "aud", "jti"):
                    for o in ({"value": b}, {"values": ["q", b]}):
                        probe(ctx, [(name, a)], [(name, o)], True)
            ctx.state("nearvalue", x)
    elif mode == "textvalues":
        # a text is no list of its characters or parts
        for text in ("admin", "a", "a b", "a,b", "ab"):
            parts = {text[i:j] for i in range(len(text)) for j in range(i + 1, len(text) + 1)} | {""}
            for part in sorted(parts - {text}):
                for v in (part, [part], ["q", part]):
                    for o in ({"values": text}, {"essential": True, "values": text}):
                        ctx.trace()
                        kind, got = call(JsonWebTokenClaims, {"z": 1, "one": v}, {"one": o})
                        ctx.check(kind != "ok", "accepted a part of a text as one of the allowed values", claim=v, options=o)
            ctx.state("textvalues", text)
    elif mode == "typed":
        pool = ["1", "0", "", "1.5", "null", "None", "[]", "['a']", "a", "{}", 1, 0, 1.5, 10 ** 20, "100000000000000000000", [], ["a"], ["1"], [1], {}, {"k": 1},
                {"k": "1"}, "{'k': 1}", ["a", "b"], ["b", "a"], "a b", "a,b", [[]], -1, "-1", 2 ** 53, 2 ** 53 + 1, 0.1, 0.1 + 0.2, 0.3]
        for a, b in itertools.product(pool, repeat=2):
            for o in ({"value": b}, {"values": [b]}, {"values": [b, "other"]}, {"values": ["other", b]}):
                if o.get("values") != []:
                    probe(ctx, [("one", a)], [("one", o)], True)
            ctx.state("typed", repr(a), repr(b))
        for a in (True, False):
            for b in ("True", "true", "False", "", "None", [], {}):
                for x, y in ((a, b), (b, a)):
                    probe(ctx, [("one", x)], [("one", {"value": y})], True)
                    probe(ctx, [("one", x)], [("one", {"values": [y]})], True)
    elif mode == "history":
        # the verdict on one claim set does not depend on what was validated before
        for a, b in itertools.product(range(len(OPTIONS)), repeat=2):
            for v in ("a", ["b", "c"], ABSENT):
                probe(ctx, [("one", "a")], [("one", OPTIONS[a])])
                probe(ctx, [("one", v)], [("one", OPTIONS[b])])
                probe(ctx, [("one", v)], [])
            ctx.state(a, b)
        # one options object used for several claim sets
        for o in OPTIONS:
            shared = {"one": o}
            before = json.dumps(shared)
            for v in VALUES:
                data = {"z": 1, **({} if v is ABSENT else {"one": v})}
                kind, _ = call(JsonWebTokenClaims, data, shared)
                ctx.trace()
                ctx.check((kind == "ok") == satisfied(v, o), "a shared options object is judged differently", claims=data, options=shared)
                ctx.check(json.dumps(shared) == before, "the caller's options were changed", options=shared)
    else:
        n = int(clock.NOW)
        subjects = [("aud", "a", ["a", "b"]), ("iss", "a", "b"), ("sub", "a", "b"), ("jti", "a", "b"), ("exp", n + 10, n + 20), ("nbf", n - 10, n),
                    ("iat", n - 5, 0)]
        for name, x, y in subjects:
            for v in (ABSENT, x, y):
                for o in ({"essential": True}, {"value": x}, {"value": y}, {"values": [x]}, {"values": [y, x]}, {"essential": True, "values": [y]},
                          {"essential": False}):
                    probe(ctx, [(name, v)], [(name, o)], True)
                    ctx.state(name, repr(v), repr(o))
        # default checks stay in force whatever the options are
        for bad in ({"exp": n}, {"nbf": n + 1}, {"iat": n + 1}, {"exp": "x"}, {"aud": 1}, {"sub": 0}):
            for o in OPTIONS[:20]:
                for name in list(bad) + ["one"]:
                    ctx.trace()
                    kind, v = call(JsonWebTokenClaims, {"one": "a", **bad}, {name: o})
                    ctx.check(kind == "jose", "claims failing the default checks were accepted with options", claims=bad, options={name: o})
