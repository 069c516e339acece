"""C02: a code is redeemed only by its own client, redirect URI, user, in time."""
import itertools

from mc import clock, coincide, consts, hist, ref
from mc.near import near, near_uri
from mc.util import TZS, ZONES, instants, attempt, client, grid
from mc.world import CHALLENGE, CODE_LIFE, VERIFIER, World, error_of, granted
from psion.oidc import AuthorizationCodeFlow

ID = "C02"
ASSUMPTIONS = ["the storage returns the code record it was given; expirations are naive UTC datetimes as the mixin documents",
               "the client is registered for the grant and authenticates correctly (C07, C08)"]
BOUNDS = {
    "quick": "full product: 3 owners x 3 presenters x 2 users x 2 authorized URIs x 10 presented URIs x verifier right/wrong "
             "x 6 instants around expiry x user present/deleted x URI still registered x 3 scope sets, 3 time zones rotating; "
             "pairs of outstanding codes; code value mutations; every near-miss (case, blanks, affixes, one character off, encodings, "
             "look-alikes, URI components) of 4 redirect URIs, a client ID, a user ID and a code, in both directions; expiry, deletion of the user, deregistration of the URI and changes of the "
             "client's scopes just before any storage access of the request; 23 expiration instants all over the calendar x 37 distances x 6 time zones, 3 with summer time",
    "thorough": "as quick with every dimension crossed with all three time zones and OpenID hook on/off",
}

SHARED = "https://shared.example/cb"
OWN = {"cb": "https://cb.example/cb", "cp": "https://cp.example/cb", "pub": "https://pub.example/cb"}
PRESENT = ["same", "cb", "cp", "pub", "shared", "evil", "slash", "upper", "absent", "query"]
TIMES = [0, CODE_LIFE - 0.000001, CODE_LIFE, CODE_LIFE + 0.000001, CODE_LIFE + 3 * 3600, -1, *(CODE_LIFE + d for n in consts.NEW_NUMBERS for d in (-n, n - 1, n))]
SCOPES = ["profile", "openid profile email", "email profile"]


def clients():
    c = {i: client(i, s, m, [OWN[i], SHARED]) for i, s, m in
         (("cb", "secret-b", "client_secret_basic"), ("cp", "secret-p", "client_secret_post"), ("pub", None, "none"))}
    return c


def cases(tier):
    out = []
    for g in grid(owner=list(OWN), presenter=list(OWN), uri=["own", "shared"], tz=TZS if tier == "thorough" else ["*"],
                  oidc=[False, True] if tier == "thorough" else [False]):
        out.append(["grid", g])
    for oidc in (False, True):
        out.append(["pair", {"oidc": oidc}])
        out.append(["value", {"oidc": oidc}])
        for base in NEAR_URIS:
            for part in range(4):
                out.append(["nearuri", {"oidc": oidc, "base": base, "part": part}])
        for method in ("client_secret_basic", "client_secret_post", "none"):
            out.append(["nearclient", {"oidc": oidc, "method": method}])
        out.append(["nearuser", {"oidc": oidc}])
        for tz in ZONES:
            out.append(["instants", {"oidc": oidc, "tz": tz}])
        out.append(["nearcode", {"oidc": oidc}])
        for who in OWN:
            out.append(["during", {"oidc": oidc, "who": who}])
    return out


NEAR_URIS = ["https://cb.example/cb", "http://127.0.0.1:8080/cb", "https://cb.example/alt?tenant=1&b=2", "app.example:/cb"]


def record(w, code, client_id, user, uri, scopes=("profile",)):
    w.codes[code] = {"client": client_id, "user": user, "redirect_uri": uri, "scopes": list(scopes), "challenge": CHALLENGE,
                     "method": "S256", "nonce": None, "auth_time": 0, "expires": clock.NOW + CODE_LIFE}


def near_redeem(ctx, w, code, presenter, uri, expect, owner=None, user="u1", scopes="profile", **info):
    w.issued.clear()
    resp = attempt(w, "token", w.token_request(w.code_form(code, presenter, redirect_uri=uri), presenter))
    ctx.trace()
    got = granted(resp)
    ctx.check(got == expect, "a near miss was %s" % ("granted" if got else "refused"), presenter=presenter, uri=uri,
              response=None if resp is None else repr(resp.body), **info)
    if got:
        check_tokens(ctx, w, owner, user, scopes, **info)
    else:
        ctx.check(not w.issued, "a refused request created tokens", issued=w.issued, **info)
    ctx.outcome("granted" if got else f"refused:{error_of(resp)}")


def run_nearuri(ctx, g, hooks):
    """Two registered redirect URIs that are easily confused: the code works with its own one only."""
    base = g["base"]
    for i, other in enumerate(near_uri(base)):
        if i % 4 != g["part"]:
            continue
        clock.set_now(clock.BASE)
        w = World(ctx, clients={"cb": client("cb", "s", "client_secret_basic", [base, other])}, hooks=hooks)
        for a, b in ((base, other), (other, base), (other, other), (base, base)):
            record(w, "the-code", "cb", "u1", a)
            near_redeem(ctx, w, "the-code", "cb", b, a == b, "cb", authorized=a)
        for only, a in ((base, other), (other, base)):  # the URI of the code is no longer registered, a near one is
            w.clients["cb"].uris = [only]
            for b in (base, other):
                record(w, "the-code", "cb", "u1", a)
                near_redeem(ctx, w, "the-code", "cb", b, False, authorized=a, registered=only)
        ctx.state("nearuri", base, other)


def run_instants(ctx, g, hooks):
    """The end of validity at any instant of the calendar, in time zones with and without summer time."""
    clock.set_tz(g["tz"])
    try:
        for end, now, expired in instants():
            clock.set_now(now)
            w = World(ctx, clients=clients(), hooks=hooks)
            record(w, "the-code", "cb", "u1", SHARED)
            w.codes["the-code"]["expires"] = end
            near_redeem(ctx, w, "the-code", "cb", SHARED, not expired, "cb", expires=end, now=now, tz=g["tz"])
            ctx.state("instants", end, now, g["tz"])
    finally:
        clock.set_tz("UTC")


def run_nearclient(ctx, g, hooks):
    base, uri = "Client-1a", SHARED
    for other in near(base):
        if g["method"] == "client_secret_basic" and ":" in other:
            continue
        clock.set_now(clock.BASE)
        cl = {i: client(i, None if g["method"] == "none" else "s", g["method"], [uri]) for i in (base, other)}
        w = World(ctx, clients=cl, hooks=hooks)
        for a, b in ((base, other), (other, base), (other, other), (base, base)):
            record(w, "the-code", a, "u1", uri)
            near_redeem(ctx, w, "the-code", b, uri, a == b, a, owner_of_code=a)
        ctx.state("nearclient", g["method"], other)


def run_nearuser(ctx, hooks):
    base = "User-1a"
    for other in near(base):
        clock.set_now(clock.BASE)
        w = World(ctx, clients={"cb": client("cb", "s", "client_secret_basic", [SHARED])}, users=(base, other), hooks=hooks)
        for a in (base, other):
            record(w, "the-code", "cb", a, SHARED)
            near_redeem(ctx, w, "the-code", "cb", SHARED, True, "cb", a, owner_of_code=a)
        for gone, left in ((base, other), (other, base)):
            w2 = World(ctx, clients=w.clients, users=(left,), hooks=hooks)
            record(w2, "the-code", "cb", gone, SHARED)
            near_redeem(ctx, w2, "the-code", "cb", SHARED, False, deleted=gone, left=left)
        ctx.state("nearuser", other)


def run_nearcode(ctx, hooks):
    base = "Code-1a_x"
    for other in near(base):
        clock.set_now(clock.BASE)
        w = World(ctx, clients=clients(), hooks=hooks)
        for stored, sent in ((base, other), (other, base)):
            w.codes.clear()
            record(w, stored, "cb", "u1", SHARED)
            near_redeem(ctx, w, sent, "cb", SHARED, False, stored=stored, sent=sent)
        for sent in (base, other):
            record(w, base, "cb", "u1", SHARED, ["profile"])
            record(w, other, "cb", "u2", SHARED, ["email"])
            near_redeem(ctx, w, sent, "cb", SHARED, True, "cb", "u1" if sent == base else "u2",
                        "profile" if sent == base else "email", sent=sent, other=other)
        ctx.state("nearcode", other)


def present(uri, choice):
    return {"same": uri, "cb": OWN["cb"], "cp": OWN["cp"], "pub": OWN["pub"], "shared": SHARED,
            "evil": "https://evil.example/cb", "slash": uri + "/", "upper": uri.upper(), "absent": None,
            "query": uri + "?"}[choice]


def check_tokens(ctx, w, owner, user, scopes, refresh=True, **detail):
    at = [t for t in w.issued if t["kind"] == "at"]
    rt = [t for t in w.issued if t["kind"] == "rt"]
    ctx.check(len(at) == 1 and len(rt) == (1 if refresh else 0), "wrong number of tokens created", issued=w.issued, **detail)
    for t in at + rt:
        ctx.check(t["client"] == owner and t["owner"] == user and not t["owner_is_client"],
                  "tokens created for another client or user", issued=w.issued, **detail)
        ctx.check(sorted(t["scopes"]) == sorted(scopes.split()), "tokens created with other scopes than the code's",
                  issued=w.issued, **detail)


def run_case(ctx, case):
    mode, g = case
    hooks = [("authorization_code", AuthorizationCodeFlow)] if g["oidc"] else []
    try:
        if mode == "grid":
            run_grid(ctx, g, hooks)
        elif mode == "instants":
            run_instants(ctx, g, hooks)
        elif mode == "pair":
            run_pair(ctx, hooks)
        elif mode == "nearuri":
            run_nearuri(ctx, g, hooks)
        elif mode == "nearclient":
            run_nearclient(ctx, g, hooks)
        elif mode == "nearuser":
            run_nearuser(ctx, hooks)
        elif mode == "during":
            run_during(ctx, g["who"], hooks)
        elif mode == "nearcode":
            run_nearcode(ctx, hooks)
        else:
            run_value(ctx, hooks)
    finally:
        clock.set_tz("UTC")


def run_during(ctx, who, hooks):
    """Something changes while the request is handled, just before any of its storage accesses."""
    for what, scope, k in itertools.product(("expire", "user", "uri", "scopes", "other-scopes"), SCOPES, range(12)):
        clock.set_now(clock.BASE)
        w = World(ctx, clients=clients(), hooks=hooks)
        code = w.issue_code(who, "u1", scope=scope)
        uri = w.clients[who].uris[0]
        w.issued.clear()
        act = {"expire": lambda: clock.set_now(clock.BASE + CODE_LIFE), "user": lambda: w.users.pop("u1"), "uri": lambda: w.clients[who].uris.remove(uri),
               "scopes": lambda: setattr(w.clients[who], "scopes", ["email"]), "other-scopes": lambda: setattr(w.clients[who], "scopes", [])}[what]
        w.happen(k, act)
        resp = attempt(w, "token", w.token_request(w.code_form(code, who), who))
        got = granted(resp)
        read = {"expire": "get_authorization_code", "user": "find_user", "uri": "find_client"}.get(what)
        info = dict(what=what, before_access=k, accesses=w.accesses, client=who, scope=scope)
        ctx.trace()
        if k >= len(w.accesses) or read is None:
            ctx.check(got, "a right request was refused", body=repr(resp and resp.body), **info)
        elif w.before(read):
            ctx.check(not got and not w.issued, "granted although the condition had ceased to hold before it was looked up", **info)
        if got:
            check_tokens(ctx, w, who, "u1", scope, **info)
        ctx.outcome(f"{what}:{got}")
        ctx.state("during", who, what, scope, k, bool(hooks))


def run_grid(ctx, g, hooks):
    owner, presenter = g["owner"], g["presenter"]
    n = 0
    for h in grid(user=["u1", "u2"], redirect=PRESENT, right=[True, False], time=TIMES, exists=[True, False],
                  registered=[True, False], scopes=SCOPES):
        tz = g["tz"]
        if tz == "*":
            n += 1
            tz = TZS[n % 3]
        clock.set_now(clock.BASE)
        clock.set_tz("UTC")
        w = World(ctx, clients=clients(), hooks=hooks)
        uri = OWN[owner] if g["uri"] == "own" else SHARED
        code = w.issue_code(owner, h["user"], redirect_uri=uri, scope=h["scopes"])
        clock.set_tz(tz)
        clock.set_now(clock.BASE + h["time"])
        if not h["exists"]:
            del w.users[h["user"]]
        if not h["registered"]:
            w.clients[owner].uris.remove(uri)
        form = w.code_form(code, presenter, redirect_uri=present(uri, h["redirect"]),
                           code_verifier=VERIFIER if h["right"] else VERIFIER[::-1])
        resp = attempt(w, "token", w.token_request(form, presenter))
        expect = (owner == presenter and present(uri, h["redirect"]) == uri and h["right"] and h["time"] < CODE_LIFE
                  and h["exists"] and h["registered"])
        got = granted(resp)
        ctx.trace()
        ctx.check(got == expect, f"a request that should be {'granted' if expect else 'refused'} was not",
                  combination=h, tz=tz, response=None if resp is None else repr(resp.body))
        if got:
            check_tokens(ctx, w, owner, h["user"], h["scopes"], combination=h)
        else:
            ctx.check(not w.issued, "a refused request created tokens", combination=h, issued=w.issued)
        ctx.state(g, sorted(h.items(), key=str), got)
        ctx.outcome("granted" if got else f"refused:{error_of(resp)}")
    clock.set_tz("UTC")


def run_pair(ctx, hooks):
    """Two outstanding codes: each presentation must use the record of the presented code only."""
    people = [("cb", "u1", "profile"), ("cb", "u2", "email"), ("cp", "u1", "openid email"), ("pub", "u2", "profile")]
    for a in people:
        for b in people:
            for first in (0, 1):
                clock.set_now(clock.BASE)
                w = World(ctx, clients=clients(), hooks=hooks)
                codes = []
                for i, (c, u, s) in enumerate((a, b)):
                    verifier = VERIFIER + str(i)
                    codes.append((w.issue_code(c, u, scope=s, code_challenge=ref.s256(verifier)), verifier, c, u, s))
                    clock.set_now(clock.NOW + 300)
                clock.set_now(clock.BASE)
                for k in (first, 1 - first):
                    code, verifier, c, u, s = codes[k]
                    other = codes[1 - k]
                    w.issued.clear()
                    resp = attempt(w, "token", w.token_request(w.code_form(code, c, code_verifier=verifier), c))
                    ctx.trace()
                    ctx.check(granted(resp), "a right request was refused", pair=(a, b), first=first)
                    check_tokens(ctx, w, c, u, s, pair=(a, b), first=first)
                    ctx.state(a, b, first, k)
                    del other
        # expired and fresh code next to each other
        clock.set_now(clock.BASE)
        w = World(ctx, clients=clients(), hooks=hooks)
        old = w.issue_code(a[0], a[1], scope=a[2])
        clock.set_now(clock.BASE + 400)
        new = w.issue_code(a[0], a[1], scope=a[2])
        clock.set_now(clock.BASE + 700)
        ctx.check(not granted(attempt(w, "token", w.token_request(w.code_form(old, a[0]), a[0]))), "expired code accepted")
        ctx.check(granted(attempt(w, "token", w.token_request(w.code_form(new, a[0]), a[0]))), "valid code refused")
        ctx.trace(2)


def run_value(ctx, hooks):
    """Only the exact code value works."""
    def mutations(c):
        yield ""
        for i in range(0, len(c)):
            yield c[:i]
        yield c[1:]
        yield c + "A"
        yield c.swapcase()
        yield " " + c
        yield c + "\n"
        yield c[::-1]
        for i in range(0, len(c), 3):
            yield c[:i] + ("A" if c[i] != "A" else "B") + c[i + 1:]

    clock.set_now(clock.BASE)
    w = World(ctx, clients=clients(), hooks=hooks)
    code = w.issue_code("cb")
    n = 0
    for m in mutations(code):
        if m == code:
            continue
        resp = attempt(w, "token", w.token_request(w.code_form(m, "cb"), "cb"))
        ctx.check(not granted(resp) and not w.issued, f"mutated code {n} was accepted")
        n += 1
        ctx.trace()
    ctx.state("value", n)
    ctx.check(granted(attempt(w, "token", w.token_request(w.code_form(code, "cb"), "cb"))), "the right code was refused")


hist.add(globals(), ["user-gone", "cb-alt-only", "pub-alt-only", "code-scopes", "code-user", "code-owner", "codes-deleted", "codes-extended",
                     "codes-expired", "later", "restore"], [n for n in hist.pick("code-") if n.endswith(("secret-b:basic", "secret-p:post", "pub:None:post"))])

coincide.add(globals(), coincide.redeem)
