"""C09: a refresh token works only for its own client, user and lifetime."""
import itertools

from mc import clock, coincide, consts, hist
from mc.near import LENGTHS, near, text
from mc.util import TZS, ZONES, instants, attempt, client, grid
from mc.world import REFRESH_LIFE, World, error_of, granted, make_request
from psion.oidc import AuthorizationCodeFlow

ID = "C09"
ASSUMPTIONS = ["the storage revokes what it is asked to revoke and returns the records it created",
               "rotation (invalidating a used refresh token) is the storage's decision; the check's storage keeps used tokens"]
BOUNDS = {
    "quick": "product: 3 owners x 3 presenters x 2 users x 6 instants x user present/deleted x 5 scope requests x 3 time zones; "
             "token value mutations; every near miss of a token, client ID and user ID in both directions, token lengths up to 100,000; every history of <=4 operations over 12 operations (refresh by each client, revoke, "
             "delete user, wait) against a reference model; expiry, revocation and deletion of the user just before any storage access; 23 expiration "
             "instants all over the calendar x 37 distances x 6 time zones, 3 with summer time",
    "thorough": "histories of <=6 operations, state matching beyond depth 4",
}
OPS = ["refresh-own", "refresh-own-narrow", "refresh-new", "refresh-other", "refresh-b", "refresh-a-by-b", "revoke-own",
       "revoke-new", "revoke-by-other", "delete-user", "wait-half", "wait-over"]


def clients():
    return {i: client(i, s, m, ["https://shared.example/cb"]) for i, s, m in
            (("cb", "secret-b", "client_secret_basic"), ("cp", "secret-p", "client_secret_post"), ("pub", None, "none"))}


def cases(tier):
    out = [["grid", g] for g in grid(owner=["cb", "cp", "pub"], presenter=["cb", "cp", "pub"], tz=TZS)]
    out += [["value", c] for c in ("cb", "cp", "pub")]
    out += [["instants", tz] for tz in ZONES]
    out += [["during", c] for c in ("cb", "cp", "pub")]
    out += [["near", what, m] for what in ("token", "client", "user") for m in ("client_secret_basic", "client_secret_post", "none")]
    depth = 6 if tier == "thorough" else 4
    for first in itertools.product(OPS, repeat=2):
        out.append(["history", list(first), depth])
    return out


def refresh(w, token, who, scope=None):
    form = {"grant_type": "refresh_token", "refresh_token": token}
    if token is None:
        del form["refresh_token"]
    if scope:
        form["scope"] = scope
    return attempt(w, "token", w.token_request(form, who))


def run_case(ctx, case):
    try:
        if case[0] == "grid":
            run_grid(ctx, case[1])
        elif case[0] == "instants":
            run_instants(ctx, case[1])
        elif case[0] == "value":
            run_value(ctx, case[1])
        elif case[0] == "during":
            run_during(ctx, case[1])
        elif case[0] == "near":
            run_near(ctx, case[1], case[2])
        else:
            run_history(ctx, case[1], case[2])
    finally:
        clock.set_tz("UTC")


def check_tokens(ctx, w, who, user, **info):
    ctx.check(len(w.issued) == 2 and sorted(t["kind"] for t in w.issued) == ["at", "rt"], "wrong tokens created",
              issued=w.issued, **info)
    for t in w.issued:
        ctx.check(t["client"] == who and t["owner"] == user and not t["owner_is_client"],
                  "tokens created for another client or user", issued=w.issued, **info)


def run_during(ctx, who):
    """Something changes while the request is handled, just before any of its storage accesses."""
    for what, scope, k in itertools.product(("expire", "user", "revoke"), (None, "email"), range(9)):
        clock.set_now(clock.BASE)
        w = World(ctx, clients=clients())
        token = w.issue_refresh(who, "u1", scope="profile email")
        w.issued.clear()
        act = {"expire": lambda: clock.set_now(clock.BASE + REFRESH_LIFE), "user": lambda: w.users.pop("u1"), "revoke": lambda: w.refresh.pop(token)}[what]
        w.happen(k, act)
        resp = refresh(w, token, who, scope)
        got = granted(resp)
        info = dict(what=what, before_access=k, accesses=w.accesses, client=who, scope=scope)
        ctx.trace()
        if k >= len(w.accesses):
            ctx.check(got, "wrongly refused", body=repr(resp and resp.body), **info)
        elif w.before("find_user" if what == "user" else "get_refresh_token"):
            ctx.check(not got and not w.issued, "granted although the condition had ceased to hold before it was looked up", **info)
        if got:
            check_tokens(ctx, w, who, "u1", **info)
        ctx.outcome(f"{what}:{got}")
        ctx.state("during", who, what, scope, k)


def run_grid(ctx, g):
    owner, presenter = g["owner"], g["presenter"]
    times = [0, 1, REFRESH_LIFE - 0.000001, REFRESH_LIFE, REFRESH_LIFE + 0.000001, REFRESH_LIFE + 50000, *(REFRESH_LIFE + d for n in consts.NEW_NUMBERS for d in (-n, n - 1, n))]
    for h in grid(user=["u1", "u2"], time=times, exists=[True, False],
                  scope=[None, "profile", "email", "profile email", "admin"], origin=["code", "refresh"]):
        clock.set_tz("UTC")
        clock.set_now(clock.BASE)
        w = World(ctx, clients=clients())
        token = w.issue_refresh(owner, h["user"], scope="profile email")
        if h["origin"] == "refresh":  # the token comes from an earlier refresh
            refresh(w, token, owner)
            token = w.issued[-1]["token"]
        clock.set_tz(g["tz"])
        clock.set_now(clock.BASE + h["time"])
        if not h["exists"]:
            del w.users[h["user"]]
        w.issued.clear()
        resp = refresh(w, token, presenter, h["scope"])
        ok = granted(resp)
        expect = owner == presenter and h["time"] < REFRESH_LIFE and h["exists"] and h["scope"] != "admin"
        ctx.trace()
        ctx.state(g, sorted(h.items(), key=str), ok)
        ctx.check(ok == expect, "wrongly granted" if ok else "wrongly refused", combination=h, where=g,
                  response=repr(resp and resp.body))
        if ok:
            check_tokens(ctx, w, owner, h["user"], combination=h, where=g)
        else:
            ctx.check(not w.issued, "a refused request created tokens", combination=h, where=g)
        ctx.outcome("granted" if ok else f"refused:{error_of(resp)}")


def run_near(ctx, what, method):
    base = "Aa-1_z"

    def one(token, owner, user, sent, presenter, users, expect):
        clock.set_now(clock.BASE)
        cl = {i: client(i, None if method == "none" else "s", method, ["https://shared.example/cb"]) for i in {owner, presenter}}
        w = World(ctx, clients=cl, users=users)
        w.refresh[token] = {"token": token, "client": owner, "user": user, "scopes": ["profile"], "expires": clock.NOW + 100}
        if what == "token" and expect:
            w.refresh.setdefault(base, {"token": base, "client": owner, "user": "u2", "scopes": ["email"], "expires": clock.NOW + 100})
        resp = refresh(w, sent, presenter)
        ok = granted(resp)
        info = dict(token=token[:99], owner=owner, token_user=user, sent=sent[:99], presenter=presenter, users=users)
        ctx.trace()
        ctx.check(ok == expect, "wrongly granted" if ok else "wrongly refused", response=repr(resp and resp.body), **info)
        if ok:
            check_tokens(ctx, w, owner, user, **info)
        else:
            ctx.check(not w.issued, "a refused request created tokens", **info)
        ctx.outcome("granted" if ok else f"refused:{error_of(resp)}")

    values = list(near(base))
    if what == "token":
        values += [text(n) for n in LENGTHS]
    for x in values:
        if what == "token":
            one(base, "c", "u1", x, "c", ("u1", "u2"), False)
            one(x, "c", "u1", base, "c", ("u1", "u2"), False)
            one(x, "c", "u1", x, "c", ("u1", "u2"), True)
            if len(x) > 6:
                one(x, "c", "u1", x[:-1], "c", ("u1", "u2"), False)
        elif what == "client":
            if method == "client_secret_basic" and ":" in x:
                continue
            one("rt", base, "u1", "rt", x, ("u1",), False)
            one("rt", x, "u1", "rt", base, ("u1",), False)
            one("rt", x, "u1", "rt", x, ("u1",), True)
        else:
            one("rt", "c", base, "rt", "c", (base, x), True)
            one("rt", "c", x, "rt", "c", (base, x), True)
            one("rt", "c", x, "rt", "c", (base,), False)
            one("rt", "c", base, "rt", "c", (x,), False)
        ctx.state("near", what, method, x)


def run_instants(ctx, tz):
    """The end of validity at any instant of the calendar, in time zones with and without summer time."""
    for end, now, expired in instants():
        clock.set_tz("UTC")
        clock.set_now(clock.BASE)
        w = World(ctx, clients=clients())
        token = w.issue_refresh("cb", "u1")
        w.issued.clear()
        w.refresh[token]["expires"] = end
        clock.set_tz(tz)
        clock.set_now(now)
        resp = refresh(w, token, "cb")
        ctx.trace()
        ctx.check(granted(resp) == (not expired), "an expired refresh token was accepted" if expired else "a valid refresh token was refused", expires=end, now=now, tz=tz,
                  response=None if resp is None else repr(resp.body))
        ctx.check(not expired or not w.issued, "a refused request created tokens", expires=end, now=now, tz=tz)
        ctx.state("instants", end, now, tz)


def run_value(ctx, who):
    clock.set_now(clock.BASE)
    w = World(ctx, clients=clients())
    token = w.issue_refresh(who, "u1")
    other = [t for t in w.issued if t["kind"] == "at"][0]["token"]
    code = w.issue_code(who)
    w.issued.clear()
    wrong = {token[:i] for i in range(len(token))} | {token + x for x in "x \n0"} | {" " + token, token.upper(), token[::-1],
                                                                                    other, code, "None", "null", "*", "%"}
    for t in sorted(wrong) + [None]:
        resp = refresh(w, t, who)
        ctx.trace()
        ctx.check(not granted(resp) and not w.issued, "an unknown refresh token was accepted", token=t)
        ctx.state(who, t)
    # other ways of presenting it must not authenticate differently
    req = make_request("POST", "/token", query={"grant_type": "refresh_token", "refresh_token": token, "client_id": "cb"})
    ctx.check(not granted(attempt(w, "token", req)), "accepted without client authentication")
    ctx.check(granted(refresh(w, token, who)), "the right token was refused")
    ctx.trace(2)


def run_history(ctx, first, depth):
    """All histories that start with `first`, compared with a reference model at every step."""
    seen = {}

    def fresh():
        clock.set_now(clock.BASE)
        w = World(ctx, clients=clients(), hooks=[("authorization_code", AuthorizationCodeFlow)])
        a = w.issue_refresh("cb", "u1", scope="profile email")
        b = w.issue_refresh("cp", "u2", scope="profile")
        w.issued.clear()
        return w, {"a": [a, "cb", "u1", clock.NOW + REFRESH_LIFE, {"profile", "email"}],
                   "b": [b, "cp", "u2", clock.NOW + REFRESH_LIFE, {"profile"}], "new": None, "users": {"u1", "u2"}, "now": 0}

    def apply(w, m, op, check):
        """Perform op on the implementation and the model; compare when check is set."""
        w.issued.clear()
        if op == "delete-user":
            w.users.pop("u1", None)
            m["users"].discard("u1")
            return
        if op.startswith("wait"):
            m["now"] += REFRESH_LIFE / 2 if op == "wait-half" else REFRESH_LIFE
            clock.set_now(clock.BASE + m["now"])
            return
        if op.startswith("revoke"):
            who, name = {"revoke-own": ("cb", "a"), "revoke-new": ("cb", "new"), "revoke-by-other": ("cp", "a")}[op]
            rec = m[name]
            token = rec[0] if rec else "unknown"
            attempt(w, "revoke", w.token_request({"token": token, "token_type_hint": "refresh_token"}, who, "/revoke"))
            if rec and rec[1] == who:
                m[name] = rec[:3] + [None, rec[4]]
            return
        who, name, scope = {"refresh-own": ("cb", "a", None), "refresh-own-narrow": ("cb", "a", "profile"),
                            "refresh-new": ("cb", "new", None), "refresh-other": ("pub", "a", None),
                            "refresh-b": ("cp", "b", None), "refresh-a-by-b": ("cp", "a", None)}[op]
        rec = m[name]
        resp = refresh(w, rec[0] if rec else "unknown", who, scope)
        ok = granted(resp)
        expect = bool(rec and rec[3] is not None and rec[1] == who and rec[3] > clock.NOW and rec[2] in m["users"])
        if check:
            ctx.check(ok == expect, "wrongly granted" if ok else "wrongly refused", op=op, response=repr(resp and resp.body))
            if ok:
                check_tokens(ctx, w, who, rec[2], op=op)
            else:
                ctx.check(not w.issued, "a refused request created tokens", op=op)
        if ok and who == "cb":
            new = [t for t in w.issued if t["kind"] == "rt"]
            if new:
                m["new"] = [new[0]["token"], who, rec[2], clock.NOW + REFRESH_LIFE, set(new[0]["scopes"])]

    def canon(m):
        def rec(r):
            return r and (r[1], r[2], r[3], tuple(sorted(r[4])))
        return (rec(m["a"]), rec(m["b"]), rec(m["new"]), tuple(sorted(m["users"])), m["now"])

    def go(path):
        w, m = fresh()
        for i, op in enumerate(path):
            apply(w, m, op, check=i == len(path) - 1 or i < 2)
        ctx.trace()
        key = canon(m)
        ctx.state("history", key)
        if len(path) >= depth or (ctx.tier == "thorough" and len(path) > 4 and seen.get(key, 99) <= len(path)):
            return
        seen[key] = len(path)
        for op in OPS:
            go(path + [op])

    go(list(first))


hist.add(globals(), ["user-gone", "token-scopes", "token-user", "token-owner", "tokens-revoked", "tokens-extended", "all-expired", "later", "restore"],
         [n for n in hist.pick("refresh") if n.endswith(("secret-b:basic", "secret-p:post", "pub:None:post"))])

coincide.add(globals(), coincide.refresh)
