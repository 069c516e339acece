"""C14: an ID token is issued exactly for openid, and tells the truth."""
import hashlib
import itertools

from mc import clock, coincide, consts, hist, ref
from mc.near import LENGTHS, near, near_uri, text
from mc.util import TZS, attempt, client, grid
from mc.world import CHALLENGE, ISSUER, World, body, granted, strict_json
from psion.jose.jwk import JsonWebKey
from psion.oidc import AuthorizationCodeFlow

ID = "C14"
ASSUMPTIONS = ["the storage's user info does not contain protocol claims (iss, aud, exp, iat, nonce, at_hash)",
               "the configured key matches the configured algorithm; lifetimes are positive",
               "an empty nonce counts as none"]
BOUNDS = {
    "quick": "all ordered scope selections of <=3 of 7 scopes (openid and near misses); 12 algorithms x key with/without ID x 3 scope "
             "sets; 14 nonces; 3 lifetimes x 3 time zones x 4 fractional clocks; pairs of outstanding codes with different nonces in "
             "every redemption order; hook absent; openid at 5 positions of 2 to 1,000 scopes, and absent; near misses of openid, of a nonce, user ID, client ID, issuer and key ID, odd access tokens; "
             "nonces and access tokens of 62 lengths up to 100,000; 23 further user-info claims over 21 JSON values and 50 lengths; time passing before any storage access",
    "thorough": "scope selections of <=4; the product of algorithms, nonces, lifetimes, zones and clocks",
}
SUPPORTED = ["openid", "profile", "email", "openid2", "myopenid", "OpenID", "open"]
NONCES = [None, "", "n", "0", "\u00e9\u6f22", "a b", "a+b&c=d", "x" * 2000, "null", "None", "false", "\"q\"", "\\", "\U0001f600"]
ALGS = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512"]
LIVES = [1, 36000, 10 ** 9]
CLOCKS = [clock.BASE, 1_700_000_000.0, 1_700_000_000.999999, 1_710_028_799.5]


INFO_NAMES = ["name", "given_name", "email", "email_verified", "phone_number", "address", "groups", "updated_at", "auth_time", "acr", "amr", "azp", "jti", "c_hash",
              "locale", "picture", "https://as.example/claim", "\u00e9", "Sub", "sub_jwk", "_x", "at-hash", "roles", *consts.NEW_TEXTS]
TEXT_ONLY = ("jti", "acr", "azp", "c_hash")
INFO_VALUES = [0, 1, -1, 1.5, True, False, "", "x", "\u00e9\u6f22", "0", "true", "null", [], ["a", "b"], {}, {"a": {"b": [1, None]}}, None, 10 ** 18, [None], "a b", "\n"]


def run_info(ctx, name):
    values = [v for v in INFO_VALUES if name not in TEXT_ONLY or isinstance(v, str) and v] + [text(n) for n in LENGTHS if n <= 5000]
    if name == "auth_time":
        values = [0, 1, 5, int(clock.BASE), 2 ** 40]
    if name == "amr":
        values = [["pwd"], ["pwd", "otp"]]
    if name == "updated_at":
        values = [0, 1, 5, int(clock.BASE)]
    for v in values:
        for more in ({}, {"zoneinfo": "Z", "email_info2": v if name not in TEXT_ONLY else "y"}):
            w = world(ctx)
            w.userinfo = {name: v, **more}
            code = w.issue_code("cp", "u2", scope="openid profile", nonce="n")
            judge(ctx, w, "cp", "u2", ["openid", "profile"], "n", redeem(w, code, "cp"), userinfo=repr(w.userinfo)[:200])
            ctx.state("info", name, repr(v)[:40], bool(more))


CROWD = sorted({2, 3, 5, 6, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 256, 257, 1000, *consts.around(1500, 2)})


def run_crowd(ctx, n, stem):
    """openid at an edge position or in the middle of n scopes, or not among them."""
    for pos in sorted({0, 1, n // 2, n - 2, n - 1}) + [None]:
        names = [f"{stem}{i}" for i in range(n)]
        if pos is not None:
            names[pos] = "openid"
        for how in ("authorize", "stored"):
            clock.set_now(clock.BASE)
            w = world(ctx, scopes=names)
            if how == "authorize":
                code = w.issue_code("cp", "u1", scope=" ".join(names), nonce="n")
            else:
                code = "the-code"
                w.codes[code] = {"client": "cp", "user": "u1", "redirect_uri": w.clients["cp"].uris[0], "scopes": list(names),
                                 "challenge": CHALLENGE, "method": "S256", "nonce": "n", "auth_time": 0, "expires": clock.NOW + 600}
            judge(ctx, w, "cp", "u1", names, "n", redeem(w, code, "cp"), position=pos, number=n)
            ctx.state("crowd", n, stem, pos, how)


def cases(tier):
    out = []
    deep = tier == "thorough"
    for n in range(1, (4 if deep else 3) + 1):
        for s in itertools.permutations(SUPPORTED, n):
            out.append(["scopes", list(s)])
    for alg in ALGS:
        for kid in ("kid-1", None):
            out.append(["alg", alg, kid])
    for tz in TZS:
        for life in LIVES:
            out.append(["time", tz, life])
    for perm in itertools.permutations(range(3)):
        for pick in itertools.product(range(len(SETUPS)), repeat=3):
            out.append(["many", list(perm), list(pick)])
    for n in NONCES:
        out.append(["nonce", n])
    for what in ("openid", "nonce", "user", "client", "issuer", "kid", "token", "longnonce", "longtoken"):
        for part in range(4):
            out.append(["near", what, part])
    for who in ("cb", "cp", "pub"):
        out.append(["during", who])
    out += [["info", n] for n in INFO_NAMES]
    out += [["crowd", n, stem] for n in CROWD for stem in ("s", "openid-")]
    if deep:
        for g in grid(alg=ALGS, tz=TZS, life=LIVES):
            out.append(["all", g])
    return out


def world(ctx, alg="HS256", kid="k1", hook=True, life=36000, users=("u1", "u2"), scopes=SUPPORTED, ids=("cb", "cp", "pub"), issuer=ISSUER):
    key = ref.key_for(alg)
    extra = {"kid": kid} if kid else {}
    jwk = JsonWebKey(key.jwk(False, **extra))
    cl = {i: client(i, s, m, [f"https://{i}.example/cb"], scopes=scopes) for i, s, m in
          zip(ids, ("s", "s", None), ("client_secret_basic", "client_secret_post", "none"))}
    w = World(ctx, clients=cl, scopes=scopes, users=users, issuer=issuer, id_lifespan=life, lifespan=77, key_info={"key": jwk, "alg": alg},
              hooks=[("authorization_code", AuthorizationCodeFlow)] if hook else [])
    w.rkey, w.alg, w.kid, w.life = key, alg, kid, life
    return w


def half_hash(token, alg):
    d = hashlib.new("sha" + alg[2:], token.encode()).digest()
    return ref.b64(d[:len(d) // 2])


def judge(ctx, w, who, user, scopes, nonce, resp, hook=True, since=None, **info):
    ctx.trace()
    info.update(client=who, scopes=scopes, nonce=nonce, alg=w.alg)
    ctx.check(granted(resp), "redemption refused", body=repr(resp and resp.body)[:500], **info)
    b = body(resp)
    want = hook and "openid" in scopes
    ctx.check(("id_token" in b) == want, "id_token is %s" % ("missing" if want else "present"), body=repr(b)[:800], **info)
    ctx.outcome("id_token" if want else "no id_token")
    if not want:
        return
    ctx.check(isinstance(b["id_token"], str), "id_token is not text", **info)
    parts = b["id_token"].split(".")
    ctx.check(len(parts) == 3, "id_token has not three segments", **info)
    head = strict_json(ref.unb64(parts[0]))
    ctx.check(head.get("alg") == w.alg, "another algorithm in the header", header=head, **info)
    ctx.check(head.get("kid") == w.kid and ("kid" in head) == bool(w.kid), "wrong kid in the header", header=head, **info)
    ctx.check(ref.verify(w.alg, w.rkey, (parts[0] + "." + parts[1]).encode(), ref.unb64(parts[2])), "the signature does not verify", **info)
    claims = strict_json(ref.unb64(parts[1]))
    iat = int(clock.NOW)
    if since is not None:  # time passed while the request was handled
        iat = claims.get("iat")
        ctx.check(type(iat) is int and int(since) <= iat <= int(clock.NOW), "iat is not a time of issue", claims=claims, since=since, now=clock.NOW, **info)
    expect = {"iss": w.issuer, "aud": who, "iat": iat, "exp": iat + w.life, "at_hash": half_hash(b["access_token"], w.alg), "sub": user}
    for s in scopes:
        if s in ("profile", "email"):
            expect[s + "_info"] = f"{s} of {user}"
    expect.update({k: v for k, v in w.userinfo.items() if v is not None})
    if nonce:
        expect["nonce"] = nonce
    ctx.check(claims == expect, "the claims are not the truth", claims=claims, expected=expect, **info)
    for t in (claims["iat"], claims["exp"]):
        ctx.check(type(t) is int, "a time is no integer", claims=claims, **info)


def redeem(w, code, who):
    return attempt(w, "token", w.token_request(w.code_form(code, who), who))


SETUPS = [("cb", "u1", "openid", "n1"), ("cb", "u2", "openid email", "n2"), ("pub", "u1", "openid profile", None), ("cp", "u2", "profile", "n3")]


def run_near(ctx, what, part):
    base = "Aa-1_z"
    values = {"openid": lambda: near("openid"), "issuer": lambda: near_uri("https://as.example/t1"), "longnonce": lambda: map(text, LENGTHS),
              "longtoken": lambda: map(text, LENGTHS)}.get(what, lambda: near(base))()
    for i, x in enumerate(values):
        if i % 4 != part:
            continue
        clock.set_now(clock.BASE)
        kw, who, user, scopes, nonce = {}, "cp", "u1", ["openid", "email"], "n"
        if what == "openid":
            if x.split() != [x] or x.split(" ") != [x]:
                continue
            kw["scopes"] = ["openid", "email", x]
            scopes = ["email", x]
        elif what in ("nonce", "longnonce"):
            nonce = x
        elif what == "user":
            user, kw["users"] = x, (base, x)
        elif what == "client":
            who, kw["ids"] = x, ("cb", x, base)
        elif what == "issuer":
            kw["issuer"] = x
        elif what == "kid":
            kw["kid"] = x
        try:
            w = world(ctx, **kw)
        except ValueError:
            if what != "issuer":
                raise
            continue  # a provider may refuse an issuer that is not a URL
        if what in ("token", "longtoken"):
            w.token_value = x
        for rest in ([scopes] if what != "openid" else [scopes, [x], [x, "openid"]]):
            w.codes["the-code"] = {"client": who, "user": user, "redirect_uri": w.clients[who].uris[0], "scopes": list(rest),
                                   "challenge": CHALLENGE, "method": "S256", "nonce": nonce, "auth_time": 0, "expires": clock.NOW + 600}
            judge(ctx, w, who, user, rest, nonce, redeem(w, "the-code", who), what=what, value=x[:99])
            ctx.state("near", what, x, rest)


def run_case(ctx, case):
    mode = case[0]
    clock.set_now(clock.BASE)
    try:
        if mode == "scopes":
            for who in ("cb", "pub"):
                for hook in (True, False):
                    for sep in (" ", "  "):
                        w = world(ctx, hook=hook)
                        code = w.issue_code(who, "u1", scope=sep.join(case[1]), nonce="n-1")
                        judge(ctx, w, who, "u1", case[1], "n-1", redeem(w, code, who), hook=hook, separator=sep)
                        ctx.state(case, who, hook, sep)
        elif mode == "near":
            run_near(ctx, case[1], case[2])
        elif mode == "info":
            run_info(ctx, case[1])
        elif mode == "crowd":
            run_crowd(ctx, case[1], case[2])
        elif mode == "during":
            for k, jump, life, nonce in itertools.product(range(12), (0.6, 1, 3, 400), (500, 3600), ("n", None)):
                clock.set_now(clock.BASE)
                w = world(ctx, life=life)
                code = w.issue_code(case[1], "u1", scope="email openid", nonce=nonce)
                w.happen(k, lambda: clock.set_now(clock.BASE + jump))
                resp = redeem(w, code, case[1])
                w.event = None
                judge(ctx, w, case[1], "u1", ["email", "openid"], nonce, resp, since=clock.BASE, before_access=k, accesses=w.accesses, jump=jump, life=life)
                ctx.state(case, k, jump, life, nonce)
        elif mode == "alg":
            for s in (["openid"], ["profile", "openid"], ["email"]):
                for nonce in ("abc", None):
                    w = world(ctx, case[1], case[2])
                    code = w.issue_code("cp", "u2", scope=" ".join(s), nonce=nonce)
                    judge(ctx, w, "cp", "u2", s, nonce, redeem(w, code, "cp"), kid=case[2])
                    ctx.state(case, s, nonce)
        elif mode == "nonce":
            for who in ("cb", "cp", "pub"):
                for s in (["openid"], ["openid", "email"], ["profile"]):
                    w = world(ctx)
                    code = w.issue_code(who, "u1", scope=" ".join(s), nonce=case[1])
                    judge(ctx, w, who, "u1", s, case[1], redeem(w, code, who))
                    ctx.state(case, who, s)
        elif mode == "time":
            for c0 in CLOCKS:
                for wait in (0, 0.7, 599.9):
                    clock.set_tz(case[1])
                    clock.set_now(c0)
                    w = world(ctx, life=case[2])
                    code = w.issue_code("cb", "u1", scope="openid", nonce="n")
                    clock.set_now(c0 + wait)
                    judge(ctx, w, "cb", "u1", ["openid"], "n", redeem(w, code, "cb"), clock=c0 + wait, tz=case[1], life=case[2])
                    ctx.state(case, c0, wait)
        elif mode == "many":
            w = world(ctx)
            codes = []
            for k in case[2]:
                who, user, scope, nonce = SETUPS[k]
                codes.append((w.issue_code(who, user, scope=scope, nonce=nonce), k))
            for i in case[1]:
                code, k = codes[i]
                who, user, scope, nonce = SETUPS[k]
                judge(ctx, w, who, user, scope.split(), nonce, redeem(w, code, who), order=case[1], setups=case[2])
            ctx.state(case)
        else:
            g = case[1]
            for nonce in NONCES:
                for c0 in CLOCKS:
                    for kid in ("k", None):
                        clock.set_tz(g["tz"])
                        clock.set_now(c0)
                        w = world(ctx, g["alg"], kid, life=g["life"])
                        code = w.issue_code("cb", "u1", scope="email openid", nonce=nonce)
                        judge(ctx, w, "cb", "u1", ["email", "openid"], nonce, redeem(w, code, "cb"), combo=g, clock=c0)
                        ctx.state(g, nonce, c0, kid)
    finally:
        clock.set_tz("UTC")


hist.add(globals(), ["new-key", "user-info", "code-nonce", "code-scopes", "code-user", "later", "restore"],
         [n for n in hist.pick("code-") if n.endswith(("secret-b:basic", "secret-p:post", "pub:None:post"))], view=lambda v: v)

coincide.add(globals(), coincide.id_token)
