"""C28: authorization codes and secrets are fresh and unpredictable."""
import asyncio
import hashlib
import itertools
import json
import math
import os
import random
import string

from mc import clock, ref
from mc.jose import call
from mc.loop import run_tasks
from mc.world import World, labelled, location, query_of
from psion.jose.jwk import JsonWebKey
from psion.webtools import secret_token

ID = "C28"
ASSUMPTIONS = ["the operating system's randomness source (os.urandom, os.getrandom) is the only unpredictable input and is good; it is replaced by enumerated "
               "streams where its influence is measured", "OpenSSL's generator, used for RSA and EC keys, is good and is only observed",
               "a token of size 0 is not asked for"]
BOUNDS = {
    "quick": "codes: for the first (2 base streams) and third code of a provider, every octet of the entropy consumed x 64 values; 600 streams; no 8 characters of a code taken from the request, the clock or the last code (36 requests); 3,000 "
             "codes in one history over 3 clients x 2 users x identical requests; 6 identical processes x 100 codes; 2 concurrent requests under every interleaving "
             "(3: <=2 preemptions), plain, with failures of the storage, with one cancelled; <=4 requests in a row with failures anywhere; secrets: sizes 1 to 130, all 64 characters "
             "at every position over 2,000 streams; keys: secrets of 3 sizes as for codes, 60 EC and 6 RSA keys in identical processes",
    "thorough": "8 base streams, first, second and tenth code, all 256 values of each octet, 20,000 codes in one history, 3,000 streams",
}
ALPHABET = set(string.ascii_letters + string.digits + "-_")


class Stream:
    """A deterministic randomness source; `override` replaces one octet."""

    def __init__(self, seed, override=None):
        self.seed, self.override, self.pos, self.buf = seed, override, 0, b""

    def read(self, n, *_):
        while len(self.buf) < self.pos + n:
            self.buf += hashlib.sha512(f"{self.seed}/{len(self.buf)}".encode()).digest()
        out = bytearray(self.buf[self.pos:self.pos + n])
        if self.override and self.pos <= self.override[0] < self.pos + n:
            out[self.override[0] - self.pos] = self.override[1]
        self.pos += n
        return bytes(out)


class entropy:
    """Replaces the operating system's randomness within a block."""

    def __init__(self, stream):
        self.stream = stream

    def __enter__(self):
        self.saved = os.urandom, random._urandom, getattr(os, "getrandom", None)
        os.urandom = random._urandom = self.stream.read
        if self.saved[2]:
            os.getrandom = self.stream.read
        return self.stream

    def __exit__(self, *_):
        os.urandom, random._urandom = self.saved[:2]
        if self.saved[2]:
            os.getrandom = self.saved[2]


def bits(ctx, make, base, what, limit=4096, fine=False):
    """Lower estimate of the entropy of make(): for every octet consumed, how many results its values lead to."""
    with entropy(Stream(base)) as s:
        first = make()
    used = s.pos
    ctx.check(used > 0, "no entropy of the operating system is used", what=what)
    ctx.check(used <= limit, "the harness does not cover so much entropy", used=used, what=what)
    total = 0.0
    for i in range(used):
        results = set()
        values = range(256) if fine or ctx.tier == "thorough" else range(0, 256, 4)
        for v in values:
            with entropy(Stream(base, (i, v))):
                results.add(make())
            ctx.step()
        ctx.trace(len(values))
        total += math.log2(len(results))
        ctx.state(what, base, i, len(results))
    return total, first


def codes_for(w, n, client="cb", user="u1"):
    return [w.issue_code(client, user) for _ in range(n)]


def well_formed(ctx, code):
    ctx.check(len(code) >= 32 and set(code) <= ALPHABET, "the code is too short or has other characters", code=code)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for b, before in itertools.product(range(8), (0, 1, 9)) if deep else ((0, 0), (1, 0), (0, 2)):
        out.append(["influence", b, before])
    out += [["streams"], ["known"], ["history"], ["processes"], ["sizes"], ["alphabet"]]
    for users in (["u1", "u1"], ["u1", "u2"], ["u1", "u1", "u1"], ["u1", "u2", "u1"]):
        for y in ("before", "both"):
            for how in ("plain", "fault", "cancel"):
                out.append(["concurrent", users, y, how])
    for n in range(1, 6 if deep else 5):
        out.append(["failing", n])
    out += [["oct", n] for n in (32, 33, 64)] + [["secret", n] for n in (16, 32, 64)]
    out += [["asymmetric", "EC"], ["asymmetric", "RSA"]]
    return out


def run_case(ctx, case):
    clock.set_now(clock.BASE)
    globals()["do_" + case[0]](ctx, *case[1:])


def fresh_state():
    random.seed(12345)
    clock.set_now(clock.BASE)


def do_influence(ctx, base, before):
    """The next code depends on fresh entropy only, whatever was issued before."""
    def make():
        fresh_state()
        w = World()
        if before:
            cur = os.urandom, random._urandom, os.getrandom
            with entropy(Stream("earlier")):
                codes_for(w, before)
            os.urandom, random._urandom, os.getrandom = cur
        return w.issue_code()
    total, code = bits(ctx, make, f"s{base}", "code")
    well_formed(ctx, code)
    ctx.check(total >= 96, "a code depends on less than 96 bits of fresh entropy", bits=total, code=code, issued_before=before)
    ctx.outcome("bits>=96")


def do_streams(ctx):
    """Different entropy and nothing else different: unrelated codes."""
    n = 3000 if ctx.tier == "thorough" else 600
    codes = []
    for i in range(n):
        fresh_state()
        w = World()
        with entropy(Stream(f"stream{i}")):
            codes.append(w.issue_code())
        well_formed(ctx, codes[-1])
        ctx.trace()
        ctx.state(codes[-1])
    ctx.check(len(set(codes)) == n, "different entropy gave the same code", codes=n, distinct=len(set(codes)))
    size = min(map(len, codes))
    cols = [tuple(c[j] for c in codes) for j in range(size)]
    free = [j for j in range(size) if len(set(cols[j])) >= 16]
    ctx.check(len(free) >= 22, "most characters of the codes hardly vary", varying=free, sample=codes[:3])
    ctx.check(len({cols[j] for j in free}) == len(free), "characters of the codes repeat one another", sample=codes[:3])


def do_known(ctx):
    """No part of a code is copied from what the requester sent, from the record, from the clock or from an earlier code."""
    w = World()
    last = ""
    for i, (c, u, t) in enumerate(itertools.product(("cb", "cp", "pub"), ("u1", "u2"), (0, 1, 999))):
        clock.set_now(clock.BASE + t)
        challenge = ref.s256(f"verifier number {i} of many that are sent")
        for method in ("S256", "plain"):
            sent = w.auth_params(c, code_challenge=challenge, code_challenge_method=method, state=f"state-{i}-with-many-characters",
                                 nonce=f"nonce-{i}-with-many-characters")
            resp = w.send("authorize", w.auth_request(sent, u))
            code = query_of(location(resp))["code"]
            well_formed(ctx, code)
            known = [str(v) for v in sent.values()] + [last, str(int(clock.NOW)), ref.s256(challenge), *map(ref.s256, map(str, sent.values()))]
            known += [h(str(v).encode()).hexdigest() for v in sent.values() for h in (hashlib.md5, hashlib.sha1, hashlib.sha256)]
            for a in range(len(code) - 7):
                for x in (code[a:a + 8], code[a:a + 8][::-1]):
                    ctx.check(not any(x in k for k in known), "a part of the code is known to others", code=code, part=x)
            last = code
            ctx.trace()
            ctx.state(i, method)


def do_history(ctx):
    n = 20000 if ctx.tier == "thorough" else 3000
    seen = set()
    w = World()
    combos = list(itertools.product(("cb", "cp", "pub"), ("u1", "u2")))
    for i in range(n):
        # runs of identical requests, the pseudo-random generator reset in between, time standing still or moving
        if i % 7 == 0:
            random.seed(0)
        c, u = combos[(i // 5) % len(combos)]
        code = w.issue_code(c, u)
        well_formed(ctx, code)
        ctx.check(code not in seen, "a code was issued twice", code=code, number=i)
        seen.add(code)
        ctx.trace()
        ctx.step()
        ctx.state(code)
        if i % 3 == 0:
            w.codes.pop(code)  # redeemed: the storage no longer knows it
        if i % 11 == 0:
            clock.set_now(clock.NOW + 1)
        if i % 500 == 499:
            w = World()
            fresh_state()
    # the first codes of many fresh providers
    for i in range(200):
        fresh_state()
        code = World().issue_code()
        ctx.check(code not in seen, "a code was issued twice", code=code)
        seen.add(code)
        ctx.trace()


def bound(tier, case):
    if case[0] == "failing":
        return None
    if case[0] == "concurrent":
        if len(case[1]) == 2:
            return None if case[3] != "fault" or tier == "thorough" else 4
        return 4 if tier == "thorough" else 2
    return None


def shown(results):
    out = []
    for kind, r in results:
        loc = location(r) if kind == "ok" else None
        if loc and "code" in query_of(loc):
            out.append(query_of(loc)["code"])
    return out


def told(w):
    """Codes as the storage was told them."""
    return [args[0] for _, name, args in w.log if name == "save_authorization_code"]


def do_concurrent(ctx, users, y, how):
    """Codes of requests that are handled at the same time, one of them failing or being cancelled."""
    fresh_state()
    w = World(ctx)
    w.yields = y
    if how == "fault":
        w.faults = True
        w.fault_names = {"save_authorization_code"}

    def one(i, u):
        req = w.auth_request(w.auth_params("cb", state=f"s{i}"), u)
        return lambda: labelled(f"r{i}", w.provider.authorize(req))

    factories = [one(i, u) for i, u in enumerate(users)]
    if how == "cancel":
        factories[0] = cancelled(w, factories[0])
    results, schedule = run_tasks(ctx, factories)
    w.yields, w.faults = None, False
    again = w.issue_code("cb", users[0])
    got = shown(results) + [again]
    for c in got:
        well_formed(ctx, c)
    ctx.check(len(set(got)) == len(got), "a code was issued twice", codes=got, schedule=schedule, users=users, how=how)
    asked = told(w)
    ctx.check(len(set(asked)) == len(asked), "a code was stored for two requests", codes=asked, schedule=schedule, users=users, how=how)
    ctx.state(users, y, how, tuple(schedule), [len(got), len(asked)])
    ctx.outcome(f"{len(got)} codes")


def cancelled(w, factory):
    async def run():
        task = asyncio.ensure_future(factory())
        for _ in range(1):
            await asyncio.sleep(0)
        task.cancel()
        try:
            return await task
        except asyncio.CancelledError:
            return None
    return run


def do_failing(ctx, n):
    """n requests one after another; the storage may fail before or after storing any code. A code that was handed to the storage is used up."""
    fresh_state()
    w = World(ctx)
    w.faults, w.fault_names = True, {"save_authorization_code"}
    results = []
    for i in range(n):
        req = w.auth_request(w.auth_params("cb", state="same"), "u1" if i % 2 else "u2")
        results.append(("ok", w.send("authorize", req, f"r{i}")))
    w.faults = False
    got = shown(results) + [w.issue_code("cb", "u1")]
    ctx.check(len(set(got)) == len(got), "a code was issued twice", codes=got)
    asked = told(w)
    ctx.check(len(set(asked)) == len(asked), "a code was stored for two requests", codes=asked)
    ctx.state(n, len(got), len(asked))


def in_process(fn):
    """Run fn in a forked copy of this process and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while chunk := os.read(r, 65536):
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def do_processes(ctx):
    """Identical processes (fork) in identical states."""
    w = World()
    codes_for(w, 3)
    random.seed(1)
    all_codes = []
    for i in range(6):
        got = in_process(lambda: codes_for(w, 100))
        ctx.check(got is not None, "codes could not be issued in a copy of the process")
        all_codes += got
        ctx.trace(100)
    got = in_process(lambda: [secret_token() for _ in range(100)])
    got += in_process(lambda: [secret_token() for _ in range(100)])
    ctx.check(len(set(all_codes)) == len(all_codes), "two identical processes issued the same code")
    ctx.check(len(set(got)) == len(got), "two identical processes generated the same secret")
    ctx.state(len(all_codes))


def do_sizes(ctx):
    for n in range(1, 131):
        for _ in range(20):
            t = secret_token(n)
            ctx.trace()
            ctx.check(isinstance(t, str) and len(t) == n and set(t) <= ALPHABET, "a secret of another size or alphabet", size=n, got=t)
        ctx.state(n)
    ctx.check(len(secret_token()) == 32 or len(secret_token()) > 32, "the default size is less than 32")


def do_alphabet(ctx):
    n = 2000
    toks = []
    for i in range(n):
        random.seed(7)
        with entropy(Stream(f"alpha{i}")):
            toks.append(secret_token(32))
        ctx.trace()
    ctx.check(len(set(toks)) == n, "different entropy gave the same secret")
    for j in range(32):
        chars = {t[j] for t in toks}
        ctx.check(chars == ALPHABET, "not every character of the alphabet is used", position=j, missing=sorted(ALPHABET - chars))
        ctx.state(j, len(chars))


def do_secret(ctx, n):
    def make():
        random.seed(3)
        return secret_token(n)
    total, _ = bits(ctx, make, "secret", f"secret{n}", fine=True)
    ctx.check(total >= 5 * n, "a secret depends on too little fresh entropy", bits=total, size=n)


def do_oct(ctx, n):
    def make():
        random.seed(3)
        return JsonWebKey.generate("oct", n).dump(False)["k"]
    total, _ = bits(ctx, make, "oct", f"oct{n}", fine=True)
    ctx.check(total >= 5 * n, "a generated secret key depends on too little fresh entropy", bits=total, size=n)
    seen = {make() for _ in range(300)}
    ctx.check(len(seen) == 300, "a generated key repeats")


def do_asymmetric(ctx, kty):
    def make(opt, n):
        def run():
            random.seed(9)
            clock.set_now(clock.BASE)
            return [JsonWebKey.generate(kty, opt).dump(False)["d"] for _ in range(n)]
        return run
    for opt, n in ([("P-256", 10), ("P-384", 5), ("P-521", 5)] if kty == "EC" else [(1024, 2)]):
        keys = []
        for _ in range(3):
            keys += in_process(make(opt, n))
            ctx.trace(n)
        with entropy(Stream("fixed")):
            keys += make(opt, n)()
        with entropy(Stream("fixed")):
            keys += make(opt, n)()
        ctx.check(len(set(keys)) == len(keys), "a generated key repeats", type=kty, option=opt)
        ctx.state(kty, opt)
