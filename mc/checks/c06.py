"""C06: scopes never grow."""
import itertools

from mc import clock, coincide, consts, hist
from mc.near import near
from mc.util import added_pairs, attempt, client
from mc.world import CHALLENGE, World, body, error_of, granted, location
from psion.oidc import AuthorizationCodeFlow

ID = "C06"
ASSUMPTIONS = ["a client allowed a scope the provider does not support is judged only on requests that name it; get_allowed_scopes(None) returns all of them, "
               "get_allowed_scopes(list) the allowed ones of the list",
               "scopes of a code are judged by what the client was allowed when the code was issued",
               "with an empty set of scopes to issue, what the response says is not judged"]
BOUNDS = {
    "quick": "4 provider scopes with prefix/case relations; all 16 client subsets x requests of <=3 items (with order and "
             "duplicates) over 8 names, in 3 spellings, for client_credentials and authorization; chains authorize -> redeem "
             "-> 3 refreshes over all subsets of 3 scopes with 4 shrinkings of the client in between; every near miss of a scope name "
             "known to the provider, to the client or to the refresh token only; requests of up to 129 scopes, one of them forbidden",
    "thorough": "requests of <=4 items; chains with four refreshes",
}
SUPPORTED = ["mail", "mailbox", "admin", "openid"]
NAMES = SUPPORTED + ["mai", "Mail", "root", "mail,admin"]
THREE = ["mail", "mailbox", "admin"]


def subsets(items):
    for n in range(len(items) + 1):
        yield from itertools.combinations(items, n)


def requests(tier):
    for n in range(1, (4 if tier == "thorough" else 3) + 1):
        for combo in itertools.product(NAMES, repeat=n):
            yield " ".join(combo)
    yield from ("mail  mailbox", " mail", "mail ", "mail\tadmin", "mail mailbox admin openid", "openid admin mail mailbox")


def cases(tier):
    out = []
    for allowed in subsets(SUPPORTED):
        out.append(["cc", list(allowed), "cb"])
        out.append(["cc", list(allowed), "cp"])
        for who in ("cb", "pub"):
            out.append(["auth", list(allowed), who])
    for granted_ in subsets(THREE):
        if granted_:
            for shrink in ([], ["mail"], ["mailbox", "admin"], THREE):
                for oidc in (False, True):
                    out.append(["chain", list(granted_), shrink, oidc])
    for known in itertools.product((False, True), repeat=4):
        for base in ("Mail-1", "api:read"):
            out.append(["near", list(known), base])
    out += [["many", n] for n in MANY]
    return out


MANY = sorted({2, 3, 5, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, *consts.around(1500, 2)})


def run_many(ctx, n):
    """Long requests: a single forbidden scope at an edge position or in the middle of n scopes."""
    names = [f"s{i}" for i in range(n)]
    for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
        ok = names[:pos] + names[pos + 1:]
        repeated = [ok[0]] * n
        requests_ = [ok, ok[::-1], names, names[::-1], repeated, repeated[:pos] + [names[pos]] + repeated[pos + 1:], ok + ["nope"], ["nope"] + ok,
                     ok[:pos] + ["nope"] + ok[pos:]]
        for asked in requests_:
            clock.set_now(clock.BASE)
            cl = {"cb": client("cb", "s", "client_secret_basic", ["https://cb.example/cb"], scopes=list(ok))}
            w = World(ctx, clients=cl, scopes=names)
            good = set(asked) <= set(ok)
            info = dict(number=n, pos=pos, asked=asked[:4] + ["..."] + asked[-4:])
            w.refresh["rt"] = {"token": "rt", "client": "cb", "user": "u1", "scopes": list(ok), "expires": clock.NOW + 100}
            for form in ({"grant_type": "client_credentials"}, {"grant_type": "refresh_token", "refresh_token": "rt"}):
                w.issued.clear()
                resp = attempt(w, "token", w.token_request({**form, "scope": " ".join(asked)}, "cb"))
                ctx.trace()
                ctx.check(granted(resp) == good == bool(w.issued), "wrongly granted or refused among many scopes", form=form, **info)
                for t in w.issued:
                    ctx.check(set(t["scopes"]) == set(asked), "the token has other scopes", form=form, **info)
                    scope_member(ctx, resp, t["scopes"], asked, info)
                ctx.check(good or resp is None or error_of(resp) == "invalid_scope", "not invalid_scope", body=repr(resp and resp.body), form=form, **info)
            attempt(w, "authorize", w.auth_request(w.auth_params("cb", scope=" ".join(asked))))
            ctx.check(bool(w.codes) == good, "a code was wrongly issued or refused among many scopes", **info)
            for code, rec in list(w.codes.items()):
                ctx.check(set(rec["scopes"]) == set(asked), "the code has other scopes", **info)
                w.issued.clear()
                resp = attempt(w, "token", w.token_request(w.code_form(code, "cb"), "cb"))
                ctx.check(granted(resp) and all(set(t["scopes"]) == set(asked) for t in w.issued), "redemption changed the scopes", **info)
        # without a scope parameter: everything the client is allowed
        w = World(ctx, clients=cl, scopes=names)
        resp = attempt(w, "token", w.token_request({"grant_type": "client_credentials"}, "cb"))
        ctx.check(granted(resp) and set(w.issued[0]["scopes"]) == set(ok), "the default scopes differ", number=n)
        ctx.state("many", n, pos)


def run_near(ctx, known, base):
    """The asked scope and its near misses are or are not known to provider, client and refresh token."""
    in_client, in_token, swap, both = known
    for x in near(base):
        if len(x.split()) != 1 or x.split() != x.split(" ") or x == "zz":
            continue
        have, asked = (x, base) if swap else (base, x)
        supported = ["zz", have, asked] if both else ["zz", have]
        clock.set_now(clock.BASE)
        cl = {"cb": client("cb", "s", "client_secret_basic", ["https://cb.example/cb"],
                           scopes=["zz", have] + ([asked] if in_client and both else []))}
        w = World(ctx, clients=cl, scopes=supported)
        info = dict(have=have, asked=asked, supported=supported, client=cl["cb"].scopes)
        # client credentials and authorization
        for names in ([asked], ["zz", asked], [asked, have], [have]):
            good = all(n in cl["cb"].scopes for n in names)
            w.issued.clear()
            w.codes.clear()
            resp = attempt(w, "token", w.token_request({"grant_type": "client_credentials", "scope": " ".join(names)}, "cb"))
            ctx.trace()
            ctx.check(granted(resp) == good == bool(w.issued), "near scope wrongly granted or refused", names=names, **info)
            for t in w.issued:
                ctx.check(sorted(t["scopes"]) == sorted(names), "the token has other scopes", issued=w.issued, names=names, **info)
                scope_member(ctx, resp, t["scopes"], names, info)
            if not good and resp is not None:
                ctx.check(error_of(resp) == "invalid_scope", "not invalid_scope", body=repr(resp.body), **info)
            p = w.auth_params("cb", scope=" ".join(names))
            attempt(w, "authorize", w.auth_request(p))
            ctx.check(bool(w.codes) == good, "near scope: code wrongly issued or refused", names=names, **info)
            for rec in w.codes.values():
                ctx.check(sorted(rec["scopes"]) == sorted(names), "the code has other scopes", rec=rec, **info)
        # a scope that the client is allowed and the token holds, but the provider does not support
        cl["cb"].scopes = ["zz", have, asked]
        if not both:
            for names in ([asked], ["zz", asked], [asked, have]):
                w.issued.clear()
                w.codes.clear()
                w.refresh["rt"] = {"token": "rt", "client": "cb", "user": "u1", "scopes": list(cl["cb"].scopes), "expires": clock.NOW + 100}
                for form in ({"grant_type": "client_credentials"}, {"grant_type": "refresh_token", "refresh_token": "rt"}):
                    resp = attempt(w, "token", w.token_request({**form, "scope": " ".join(names)}, "cb"))
                    ctx.trace()
                    ctx.check(not granted(resp) and not w.issued, "a scope unknown to the provider was granted", names=names, form=form, **info)
                    ctx.check(resp is None or error_of(resp) == "invalid_scope", "not invalid_scope", body=repr(resp and resp.body), **info)
                attempt(w, "authorize", w.auth_request(w.auth_params("cb", scope=" ".join(names))))
                ctx.check(not w.codes, "a code was issued for a scope unknown to the provider", names=names, **info)
        cl["cb"].scopes = ["zz", have] + ([asked] if in_client and both else [])
        # refresh
        held = ["zz", have] + ([asked] if in_token else [])
        for names in ([asked], ["zz", asked], [have], ["zz", have], None):
            w.issued.clear()
            w.refresh["rt"] = {"token": "rt", "client": "cb", "user": "u1", "scopes": list(held), "expires": clock.NOW + 100}
            form = {"grant_type": "refresh_token", "refresh_token": "rt"}
            if names:
                form["scope"] = " ".join(names)
            resp = attempt(w, "token", w.token_request(form, "cb"))
            want = set(held) & set(cl["cb"].scopes) if names is None else set(names)
            good = all(n in held and n in cl["cb"].scopes for n in names or [])
            ctx.trace()
            ctx.check(granted(resp) == good == bool(w.issued), "near scope wrongly refreshed or refused", names=names, held=held, **info)
            for t in w.issued:
                ctx.check(set(t["scopes"]) == want, "a refresh issued other scopes", issued=w.issued, names=names, held=held, **info)
                scope_member(ctx, resp, t["scopes"], names or held, info)
        ctx.state("near", known, base, x)


def make(ctx, allowed, oidc=False):
    clock.set_now(clock.BASE)
    cl = {i: client(i, s, m, [f"https://{i}.example/cb"], scopes=list(allowed)) for i, s, m in
          (("cb", "s", "client_secret_basic"), ("cp", "s", "client_secret_post"), ("pub", None, "none"))}
    return World(ctx, clients=cl, scopes=SUPPORTED, hooks=[("authorization_code", AuthorizationCodeFlow)] if oidc else [])


def scope_member(ctx, resp, issued, asked_, info):
    """The rule about the scope member of a response."""
    b = body(resp)
    if not issued:
        return
    if "scope" in b:
        ctx.check(isinstance(b["scope"], str), "scope is not text", body=b, **info)
        got = b["scope"].split()
        ctx.check(set(got) == set(issued), "the response names other scopes than were issued", body=b, issued=issued,
                  **info)
    else:
        ctx.check(set(issued) == set(asked_), "scope is missing although it differs from the request", body=b,
                  issued=issued, **info)


def tokens(ctx, w, **info):
    kinds = {}
    for t in w.issued:
        ctx.check(t["kind"] not in kinds, "two tokens of one kind", **info)
        kinds[t["kind"]] = t
    return kinds


def run_case(ctx, case):
    if case[0] == "cc":
        return run_cc(ctx, case[1], case[2])
    if case[0] == "many":
        return run_many(ctx, case[1])
    if case[0] == "near":
        return run_near(ctx, case[1], case[2])
    if case[0] == "auth":
        return run_auth(ctx, case[1], case[2])
    return run_chain(ctx, *case[1:])


def run_cc(ctx, allowed, who):
    for asked in [None] + list(requests(ctx.tier)):
        w = make(ctx, allowed)
        form = {"grant_type": "client_credentials"}
        if asked is not None:
            form["scope"] = asked
        resp = attempt(w, "token", w.token_request(form, who))
        names = asked.split() if asked else None
        bad = names is not None and any(n not in SUPPORTED or n not in allowed for n in names)
        info = dict(allowed=allowed, asked=asked, who=who)
        ctx.trace()
        ctx.state("cc", allowed, asked, who)
        if bad:
            ctx.check(resp is None or error_of(resp) == "invalid_scope", "a forbidden scope was not refused with invalid_scope",
                      body=repr(resp and resp.body), **info)
            ctx.check(not w.issued, "a token was created", issued=w.issued, **info)
            ctx.outcome("invalid_scope")
            continue
        if not granted(resp):
            ctx.check(not w.issued, "a token was created for a refused request", **info)
            ctx.outcome("refused")
            ctx.check(names is None and not allowed, "a permitted scope was refused", body=repr(resp and resp.body), **info)
            continue
        (t,) = w.issued
        ctx.check(set(t["scopes"]) == set(names if names is not None else allowed), "the token has other scopes",
                  issued=w.issued, **info)
        scope_member(ctx, resp, t["scopes"], names or [], info)
        ctx.outcome("granted")


def run_auth(ctx, allowed, who):
    for asked in requests(ctx.tier):
        w = make(ctx, allowed)
        p = w.auth_params(who, scope=asked)
        resp = attempt(w, "authorize", w.auth_request(p))
        names = asked.split()
        bad = any(n not in SUPPORTED or n not in allowed for n in names)
        info = dict(allowed=allowed, asked=asked, who=who)
        pairs = dict(added_pairs(location(resp) if resp else None, p["redirect_uri"]) or [])
        ctx.trace()
        ctx.state("auth", allowed, asked, who)
        if bad:
            ctx.check(resp is None or pairs.get("error") == "invalid_scope", "a forbidden scope was not refused with invalid_scope",
                      pairs=pairs, **info)
            ctx.check(not w.codes and "code" not in pairs, "a code was issued", **info)
            ctx.outcome("invalid_scope")
            continue
        ctx.check("code" in pairs, "permitted scopes were refused", pairs=pairs, **info)
        (rec,) = w.codes.values()
        ctx.check(set(rec["scopes"]) == set(names), "the code has other scopes", rec=rec, **info)
        resp = attempt(w, "token", w.token_request(w.code_form(pairs["code"], who), who))
        ctx.check(granted(resp), "redemption was refused", body=repr(resp and resp.body), **info)
        for t in w.issued:
            ctx.check(set(t["scopes"]) == set(names), "the token has other scopes", issued=w.issued, **info)
        scope_member(ctx, resp, names, names, info)
        ctx.outcome("granted")


REFRESH = [None, "root", "mai", "MAIL"] + [" ".join(s) for s in subsets(THREE) if s] + ["admin mail", "mail root", "openid"]


def run_chain(ctx, first, shrink, oidc):
    depth = 4 if ctx.tier == "thorough" else 3
    w = make(ctx, SUPPORTED, oidc)
    code = w.issue_code("cb", scope=" ".join(first))
    for redeem_scope in (None, "mail mailbox admin openid"):
        base = {k: dict(d) for k, d in w.codes.items()}
        form = w.code_form(code, "cb")
        if redeem_scope:
            form["scope"] = redeem_scope  # a scope parameter here must not widen anything
        w.issued.clear()
        w.refresh.clear()
        resp = attempt(w, "token", w.token_request(form, "cb"))
        w.codes.update(base)
        if not granted(resp):
            ctx.check(redeem_scope, "redemption refused", body=repr(resp and resp.body))
            continue
        t = tokens(ctx, w)
        for k in t.values():
            ctx.check(set(k["scopes"]) == set(first), "redemption changed the scopes", issued=w.issued, first=first)
        ctx.trace()
        rt = t["rt"]["token"]
        w.clients["cb"].scopes = [s for s in SUPPORTED if s not in shrink]
        walk(ctx, w, rt, set(first), depth, [])
        w.clients["cb"].scopes = list(SUPPORTED)


def walk(ctx, w, rt, have, depth, path):
    """All refresh chains of the depth; `have` is what the refresh token rt carries."""
    allowed = set(w.clients["cb"].scopes)
    for asked in REFRESH:
        saved = {k: dict(d) for k, d in w.refresh.items()}
        form = {"grant_type": "refresh_token", "refresh_token": rt}
        if asked is not None:
            form["scope"] = asked
        w.issued.clear()
        resp = attempt(w, "token", w.token_request(form, "cb"))
        ctx.trace()
        here = path + [asked]
        info = dict(path=here, have=sorted(have), allowed=sorted(allowed))
        names = asked.split() if asked else None
        ctx.state("chain", sorted(have), sorted(allowed), asked, len(path))
        if names is not None and any(n not in SUPPORTED or n not in allowed or n not in have for n in names):
            ctx.check(resp is None or error_of(resp) == "invalid_scope", "a broader scope was not refused with invalid_scope",
                      body=repr(resp and resp.body), **info)
            ctx.check(not w.issued, "tokens were created for a refused request", **info)
            ctx.outcome("invalid_scope")
        elif granted(resp):
            t = tokens(ctx, w, **info)
            want = (set(names) if names is not None else have) & allowed
            for k in t.values():
                ctx.check(set(k["scopes"]) == want, "a refresh issued other scopes", issued=w.issued, **info)
            scope_member(ctx, resp, sorted(want), names if names is not None else sorted(have), info)
            ctx.outcome("refreshed")
            if depth > 1:
                walk(ctx, w, t["rt"]["token"], want, depth - 1, here)
        else:
            ctx.check(not w.issued, "tokens were created for a refused request", **info)
            ctx.check(names is None and not (have & allowed), "a permitted refresh was refused",
                      body=repr(resp and resp.body), **info)
        w.refresh.clear()
        w.refresh.update(saved)


hist.add(globals(), ["cb-fewer-scopes", "cb-other-scopes", "cb-more-scopes", "code-scopes", "token-scopes", "restore"],
         [n for n in hist.pick("authorize:cb", "cc", "code-plain", "code-oidc", "refresh") if n.startswith("authorize") or n.endswith("secret-b:basic")], view=lambda v: v)

coincide.add(globals(), coincide.scope)
