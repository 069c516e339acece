"""C11: revocation acts once, for the authenticated client, on the named token."""
import itertools

from mc import clock, coincide, hist
from mc.checks.c10 import EXCS
from mc.near import LENGTHS, near, text
from mc.util import attempt, client, effects, grid
from mc.world import World, basic, error_of, granted, header, make_request

ID = "C11"
ASSUMPTIONS = ["the storage carries out the revocations it is asked for, for tokens of the asking client only",
               "a token parameter in the query string instead of the body is not judged"]
BOUNDS = {
    "quick": "product: 6 client presentations x 26 token values x 10 hints; near misses of a token, of both "
             "hints and of the client ID, token lengths up to 100,000; a storage failure of 7 exception types at every access, before or after its effect; every history of <=4 operations over 11 operations "
             "(revoke and refresh by three clients) against a reference model",
    "thorough": "histories of <=5 operations",
}
WHO = ["cb", "cp", "pub", "bad-secret", "unknown", "nobody"]
HINTS = [None, "", "access_token", "refresh_token", "id_token", "Refresh_Token", "refresh", "refresh_token ", "x", "token"]
ODD = ["x", "*", "%", "None", "0", "a b", "a+b", "a&b=c", "a%20b", "\u00e9\u6f22", "a\r\nb", "\x00", "z" * 4000, "../x", "'; --", " "]


def clients():
    return {i: client(i, s, m, ["https://shared.example/cb"]) for i, s, m in
            (("cb", "secret-b", "client_secret_basic"), ("cp", "secret-p", "client_secret_post"), ("pub", None, "none"))}


def cases(tier):
    out = [["grid", g] for g in grid(who=WHO, hint=HINTS)]
    out += [["fault", who, hint, e] for who in ("cb", "cp", "pub") for hint in (None, "access_token", "refresh_token") for e in range(len(EXCS))]
    out += [["near", what, who] for what in ("token", "access_token", "refresh_token", "client") for who in ("cb", "cp", "pub")]
    depth = 5 if tier == "thorough" else 4
    for first in itertools.product(range(len(OPS)), repeat=2):
        out.append(["history", list(first), depth])
    return out


def revoke_request(w, who, form):
    if who in w.clients:
        return w.token_request(form, who, "/revoke")
    if who == "bad-secret":
        return make_request("POST", "/revoke", form=form, headers={"Authorization": basic("cb", "wrong")})
    if who == "unknown":
        return make_request("POST", "/revoke", form={**form, "client_id": "ghost"})
    return make_request("POST", "/revoke", form=form)


def fresh(ctx):
    clock.set_now(clock.BASE)
    w = World(ctx, clients=clients())
    tokens = {c: w.issue_refresh(c, u, scope="profile") for c, u in (("cb", "u1"), ("cp", "u2"), ("pub", "u1"))}
    access = {t["client"]: t["token"] for t in w.issued if t["kind"] == "at"}
    w.issued.clear()
    w.log.clear()
    return w, tokens, access


def usable(w, token, who):
    return granted(attempt(w, "token", w.token_request({"grant_type": "refresh_token", "refresh_token": token}, who)))


def run_case(ctx, case):
    if case[0] == "history":
        return run_history(ctx, case[1], case[2])
    if case[0] == "near":
        return run_near(ctx, case[1], case[2])
    if case[0] == "fault":
        return ctx.explore(lambda c: run_fault(c, *case[1:]), bound=2)
    g = case[1]
    who, hint = g["who"], g["hint"]
    w0, tokens, access = fresh(ctx)
    values = [None, ""] + [tokens[c] for c in tokens] + [access[c] for c in access] + [tokens["cb"][:-1], tokens["cb"].upper()] + ODD
    for token in values:
        w, tokens, access = fresh(ctx)
        form = {}
        if token is not None:
            form["token"] = token
        if hint is not None:
            form["token_type_hint"] = hint
        resp = attempt(w, "revoke", revoke_request(w, who, form))
        ctx.trace()
        ctx.state(who, hint, token)
        info = dict(who=who, token=token, hint=hint, response=None if resp is None else [resp.status_code, repr(resp.body)],
                    revoked=w.revoked)
        others = [e for e in effects(w.log) if e[1] != "revoke_token"]
        ctx.check(not others, "revocation had other effects", effects=others, **info)
        good_hint = not hint or hint in ("access_token", "refresh_token")
        if who in w.clients and token and good_hint:
            ctx.check(w.revoked == [(who, token, hint or None)], "not revoked exactly once as asked", **info)
            ctx.check(resp is not None and resp.status_code == 200, "a revocation was not answered with 200", **info)
            ctx.outcome("revoked")
        else:
            ctx.check(not w.revoked, "something was revoked", **info)
            if resp is not None:
                if who not in w.clients:
                    ctx.check(resp.status_code == 401 and error_of(resp) == "invalid_client", "not answered with 401 invalid_client",
                              **info)
                    if who == "bad-secret":
                        ctx.outcome("www-authenticate" if header(resp, "WWW-Authenticate") else "no www-authenticate")
                else:
                    ctx.check(resp.status_code == 400 and bool(error_of(resp)), "not answered with 400", **info)
                    if token:
                        ctx.check(error_of(resp) == "unsupported_token_type", "wrong error", **info)
                    ctx.outcome(f"refused:{error_of(resp)}")
        for c, t in tokens.items():
            expect = not (who == c and token == t and good_hint)
            ctx.check(usable(w, t, c) == expect, "a token of another client or request is %s usable" %
                      ("no longer" if expect else "still"), client=c, **info)


def run_fault(ctx, who, hint, e):
    """A storage that fails is not asked again, and what it did not do is not reported as done."""
    w, tokens, _ = fresh(ctx)
    w.attempts.clear()
    w.faults = True
    w.fault_exc = EXCS[e]
    form = {"token": tokens[who], **({"token_type_hint": hint} if hint else {})}
    resp = attempt(w, "revoke", revoke_request(w, who, form))
    w.faults = False
    asked = [a for n, a in w.attempts if n == "revoke_token"]
    info = dict(who=who, hint=hint, exception=EXCS[e].__name__, fault=w.fault_fired, asked=repr(asked), response=None if resp is None else [resp.status_code, repr(resp.body)])
    ctx.check(len(asked) <= 1 and len(w.revoked) <= 1, "the storage was asked more than once", **info)
    if w.fault_fired:
        ctx.check(resp is None or resp.status_code != 200, "a failed revocation was reported as done", **info)
    else:
        ctx.check(w.revoked == [(who, tokens[who], hint)] and resp is not None and resp.status_code == 200, "not revoked", **info)
    for c, t in tokens.items():
        ctx.check(c == who or usable(w, t, c), "a token of another client is no longer usable", client=c, **info)
    ctx.trace()
    ctx.state("fault", who, hint, w.fault_fired)


def run_near(ctx, what, who):
    base = {"token": "Aa-1_z", "client": "Aa-1_z"}.get(what, what)
    for x in list(near(base)) + ([text(n) for n in LENGTHS] if what == "token" else []):
        cid, token, hint = who, "some-token", None
        if what == "token":
            token = x
        elif what == "client":
            cid = x
            if who == "cb" and ":" in x:
                continue
        else:
            hint = x
        clock.set_now(clock.BASE)
        c = clients()[who]
        other = client(base, c.secret, c.method, c.uris)
        c = client(cid, c.secret, c.method, c.uris)
        w = World(ctx, clients={base: other, cid: c} if what == "client" else {cid: c})
        form = {"token": token}
        if hint is not None:
            form["token_type_hint"] = hint
        resp = attempt(w, "revoke", w.token_request(form, cid, "/revoke"))
        ctx.trace()
        info = dict(client=cid, token=token[:99], hint=hint, response=None if resp is None else [resp.status_code, repr(resp.body)], revoked=w.revoked)
        if hint in (None, "access_token", "refresh_token"):
            ctx.check(w.revoked == [(cid, token, hint)], "not revoked exactly once as asked", **info)
            ctx.check(resp is not None and resp.status_code == 200, "a revocation was not answered with 200", **info)
        else:
            ctx.check(not w.revoked, "something was revoked", **info)
            ctx.check(resp is None or (resp.status_code == 400 and error_of(resp) == "unsupported_token_type"), "wrong answer", **info)
        ctx.state("near", what, who, x)


OPS = [("revoke", "cb", "cb", None), ("revoke", "cb", "cb", "access_token"), ("revoke", "cp", "cb", None), ("revoke", "pub", "cb", None),
       ("revoke", "cp", "cp", "refresh_token"), ("revoke", "bad-secret", "cb", None), ("revoke", "cb", "cb", "bogus"),
       ("refresh", "cb", "cb", None), ("refresh", "cp", "cp", None), ("revoke", "cb", "new", None), ("refresh", "cb", "new", None)]


def run_history(ctx, first, depth):
    def replay(path):
        w, tokens, _ = fresh(ctx)
        live = {t: c for c, t in tokens.items()}
        names = dict(tokens, new="no-such-token")
        for op, who, name, hint in path:
            t = names[name]
            w.issued.clear()
            w.revoked.clear()
            if op == "revoke":
                resp = attempt(w, "revoke", revoke_request(w, who, {"token": t, **({"token_type_hint": hint} if hint else {})}))
                valid = who in w.clients and hint != "bogus"
                want = [(who, t, hint)] if valid else []
                ctx.check(w.revoked == want, "revoked something else", path=path, revoked=w.revoked)
                if valid:
                    ctx.check(resp is not None and resp.status_code == 200, "not answered with 200", path=path)
                    if live.get(t) == who:
                        del live[t]
            else:
                resp = attempt(w, "token", w.token_request({"grant_type": "refresh_token", "refresh_token": t}, who))
                ok = granted(resp)
                ctx.check(ok == (live.get(t) == who), "a %s token was %s" % (("revoked", "accepted") if ok else ("live", "refused")),
                          path=path)
                if ok and who == "cb":
                    new = [x["token"] for x in w.issued if x["kind"] == "rt"]
                    if new:
                        names["new"] = new[0]
                        live[new[0]] = who
        ctx.trace()
        ctx.state(tuple(sorted((t, c) for t, c in live.items())), len(path))

    def go(path):
        replay(path)
        if len(path) < depth:
            for op in OPS:
                go(path + [op])

    go([OPS[i] for i in first])


hist.add(globals(), ["cb-secret", "cp-secret", "cb-post", "cb-public", "cb-gone", "pub-gone", "token-owner", "tokens-revoked", "restore"],
         hist.pick("revoke:"), view=lambda v: v)

coincide.add(globals(), coincide.revoke)
