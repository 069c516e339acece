"""C03: PKCE is always required and always enforced."""
import itertools

from mc import clock, coincide, consts, hist, ref
from mc.near import near
from mc.util import added_pairs, attempt, grid
from mc.world import World, error_of, granted, location
from psion.oidc import AuthorizationCodeFlow

ID = "C03"
ASSUMPTIONS = ["the storage returns the challenge and method it was given (except where the check corrupts the method)"]
BOUNDS = {
    "quick": "challenge: all lengths 0..130 and 200, 5000 x 11 methods x GET/POST x 3 clients; verifier: every near miss of the verifier and of the challenge, every single-"
             "character substitution, deletion and prefix of the right verifier, method confusion, 40 lengths; the stored challenge "
             "replaced by every near miss (case, padding, affixes, encodings, one character off)",
    "thorough": "as quick plus all pairs of character substitutions over 5 replacement characters and three alphabets",
}
METHODS = [None, "", "plain", "S256", "s256", "PLAIN", "Plain", "S512", "none", "plain ", "S256\n", *consts.NEW_TEXTS]
LENGTHS = list(range(0, 131)) + [200, 5000, *consts.around(6000, 131)]
GOOD = ("plain", "S256")


def cases(tier):
    out = []
    for c in ("cb", "cp", "pub"):
        for verb in ("GET", "POST"):
            for m in METHODS:
                out.append(["challenge", c, verb, m])
    for m in GOOD:
        for n in sorted({43, 44, 50, 64, 86, 127, 128}):
            out.append(["verifier", m, n])
        out.append(["confusion", m, 43])
        for n in (43, 46, 128):
            out.append(["nearstored", m, n])
        if tier == "thorough":
            for n in (43, 128):
                for rep in "Az0~-":
                    out.append(["pairs", m, n, rep])
    out.append(["stored", None, 0])
    out.append(["mixed", None, 0])
    return out


ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"


def text(n, salt=0):
    return "".join(ALPHA[(i * 7 + salt * 11 + i * i) % len(ALPHA)] for i in range(n))


def variants(challenge_len):
    """Challenge strings of the length, over several alphabets."""
    yield text(challenge_len)
    if challenge_len in (42, 43, 44, 127, 128, 129):
        yield "A" * challenge_len
        yield "\u00e9" * challenge_len
        yield " " * challenge_len
        yield "+" * challenge_len
        yield "&=" * (challenge_len // 2) + "=" * (challenge_len % 2)
        yield "0" * challenge_len


def challenge_case(ctx, c, verb, method):
    for n in LENGTHS:
        for ch in variants(n):
            clock.set_now(clock.BASE)
            w = World(ctx)
            params = w.auth_params(c, code_challenge=ch, code_challenge_method=method)
            if n == 0:
                del params["code_challenge"]
            resp = attempt(w, "authorize", w.auth_request(params, "u1", verb))
            loc = location(resp) if resp is not None else None
            pairs = dict(added_pairs(loc, params["redirect_uri"]) or [])
            ok = bool(pairs.get("code")) or bool(w.codes)
            expect = 43 <= n <= 128 and method in GOOD
            ctx.trace()
            ctx.check(ok == expect, "a code was %s" % ("issued without acceptable PKCE" if ok else "not issued"),
                      length=n, challenge=ch[:60], method=method, location=loc)
            if ok:
                (rec,) = w.codes.values()
                ctx.check(rec["challenge"] == ch and rec["method"] == method, "another challenge or method was stored",
                          stored=rec, sent=[ch, method])
            ctx.state(c, verb, method, n, ch[:3], ok)
            ctx.outcome("code" if ok else "refused")


def redeem(ctx, w, code, verifier, extra=None):
    form = w.code_form(code, "cb", code_verifier=verifier)
    form.update(extra or {})
    return attempt(w, "token", w.token_request(form, "cb"))


def setup(ctx, method, n, salt=0, oidc=False):
    clock.set_now(clock.BASE)
    hooks = [("authorization_code", AuthorizationCodeFlow)] if oidc else []
    w = World(ctx, hooks=hooks)
    v = text(n, salt)
    ch = v if method == "plain" else ref.s256(v)
    code = w.issue_code("cb", code_challenge=ch, code_challenge_method=method)
    return w, code, v, ch


def matches(method, challenge, verifier):
    if not verifier:
        return False
    if method == "plain":
        return verifier == challenge
    try:
        return ref.s256(verifier) == challenge
    except UnicodeEncodeError:
        return False


def wrong_verifiers(v, ch):
    yield None
    yield ""
    for i in range(1, len(v)):
        yield v[:i]
    for i in range(len(v)):
        yield v[:i] + v[i + 1:]
    for i in range(len(v)):
        for r in ("A", "b", "0", "-", "\u00e9"):
            if v[i] != r:
                yield v[:i] + r + v[i + 1:]
        if v[i].swapcase() != v[i]:
            yield v[:i] + v[i].swapcase() + v[i + 1:]
    for s in ("A", "=", " ", "\n", "\x00", "%00"):
        yield v + s
        yield s + v
    for s in ("\u00e9", "\u0100", "\u200b", "\ufeff", "\U0001f600", "\u00ad", "\x7f", "\t", "%", "+"):
        for i in (0, 1, len(v) // 2, len(v)):
            yield v[:i] + s + v[i:]
        yield s.join(v)
    yield v.lower()
    yield v.upper()
    yield v[::-1]
    yield v + v
    yield ch
    yield ch + "="
    yield ref.s256(ch)
    yield ref.s256(v)
    yield "\u212a" * len(v)
    yield "None"
    yield "null"
    yield from near(v)
    yield from near(ch)
    for n in consts.around(6000):
        yield (v * (n // len(v) + 1))[:n]


def run_case(ctx, case):
    mode = case[0]
    if mode == "challenge":
        return challenge_case(ctx, *case[1:])
    if mode == "stored":
        return stored_case(ctx)
    if mode == "mixed":
        return mixed_case(ctx)
    method, n = case[1], case[2]
    w, code, v, ch = setup(ctx, method, n)
    backup = dict(w.codes)

    def attempt_with(verifier, extra=None, stored=ch):
        w.codes.clear()
        w.codes.update({k: dict(d) for k, d in backup.items()})
        w.issued.clear()
        got = granted(redeem(ctx, w, code, verifier, extra))
        expect = matches(method, stored, verifier)
        ctx.trace()
        ctx.check(got == expect, "verifier %s" % ("wrongly accepted" if got else "wrongly refused"), method=method,
                  challenge=stored, verifier=verifier, extra=extra)
        ctx.check(got or not w.issued, "a refused request created tokens")
        ctx.outcome("accepted" if got else "refused")

    if mode == "verifier":
        attempt_with(v)
        seen = set()
        for x in wrong_verifiers(v, ch):
            if x not in seen:
                seen.add(x)
                attempt_with(x)
                ctx.state(mode, method, n, x)
        attempt_with(v)
        for m in range(1, 140):
            attempt_with(text(m))
    elif mode == "pairs":
        rep = case[3]
        for i, j in itertools.combinations(range(n), 2):
            x = list(v)
            x[i] = x[j] = rep
            attempt_with("".join(x))
        ctx.state(case)
    elif mode == "nearstored":
        for x in near(ch):
            for stored, sent in ((x, v), (x, x), (x, ch), (x, ref.s256(v)), (x, v + "=")):
                for k in backup:
                    backup[k]["challenge"] = stored
                attempt_with(sent, stored=stored)
            ctx.state(mode, method, n, x)
    else:  # parameters of the token request that try to change method or challenge
        for g in grid(verifier=[v, ch, ref.s256(ch), text(50, 3), None],
                      m=[None, "plain", "S256", ""], c=[None, ch, ref.s256(text(50, 3)), text(50, 3), v]):
            extra = {}
            if g["m"] is not None:
                extra["code_challenge_method"] = g["m"]
            if g["c"] is not None:
                extra["code_challenge"] = g["c"]
            attempt_with(g["verifier"], extra)
            ctx.state(mode, method, g)


def stored_case(ctx):
    """Whatever method the storage returns, only plain and S256 may lead to success."""
    for m in [None, "", "S512", "plain ", "s256", "none", 0, 1, ("plain",)]:
        for ch in (text(43), ref.s256(text(43)), "", None):
            for v in (text(43), ref.s256(text(43)), None, "None"):
                w, code, _, _ = setup(ctx, "plain", 43)
                w.codes[code]["method"] = m
                w.codes[code]["challenge"] = ch
                ctx.trace()
                ctx.check(not granted(redeem(ctx, w, code, v)), "accepted although the stored method is unknown",
                          method=repr(m), challenge=ch, verifier=v)
                ctx.state("stored", repr(m), ch, v)


def mixed_case(ctx):
    """Codes of both methods outstanding; each verifier works for its own code only."""
    for order in itertools.permutations(range(4)):
        for oidc in (False, True):
            clock.set_now(clock.BASE)
            w = World(ctx, hooks=[("authorization_code", AuthorizationCodeFlow)] if oidc else [])
            items = []
            for i in range(4):
                v = text(43 + i, i)
                m = GOOD[i % 2]
                ch = v if m == "plain" else ref.s256(v)
                items.append((w.issue_code("cb", code_challenge=ch, code_challenge_method=m), m, ch, v))
            backup = {k: dict(d) for k, d in w.codes.items()}
            for i in order:
                for j in range(4):
                    w.codes.clear()
                    w.codes.update({k: dict(d) for k, d in backup.items()})
                    got = granted(redeem(ctx, w, items[i][0], items[j][3]))
                    ctx.trace()
                    ctx.check(got == matches(items[i][1], items[i][2], items[j][3]), "verifier of another code",
                              code=i, verifier=j, error=got)
            ctx.state("mixed", order, oidc)


hist.add(globals(), ["code-challenge", "code-owner", "restore"], [n for n in hist.pick("code-") if n.endswith(("secret-b:basic", "secret-p:post"))])

coincide.add(globals(), coincide.pkce)
