"""C35: no response reveals a secret."""
import base64
import re
from urllib.parse import unquote_plus

from mc import clock
from mc.checks import c10
from mc.util import client
from mc.world import CHALLENGE, VERIFIER, location, query_of, strict_json
from psion.oauth2.models import Response

ID = "C35"
ASSUMPTIONS = ["what the request itself carries may be repeated to its sender, except right client secrets, verifiers and challenges",
               "the names of clients and scopes are no secrets, but who else owns a code or token is",
               "the log of the application is not a response"]
BOUNDS = {
    "quick": "13 baseline requests of C10 with records of another client and user in the storage; every single deviation, every pair of deviations with "
             "10 values per parameter, with codes, tokens, secrets and verifiers of others and of near miss; one storage fault at every call, before and after its "
             "effect, with 7 exception types, alone and combined with each of 12 deviations; responses searched raw, percent-decoded, Base64-decoded and as JSON, also for every run of 8 characters of a secret",
    "thorough": "pairs with all values; two storage faults",
}
VALUES = ["-", "", "x", "\u00e9", "=cb", "dup", "victim-code", "victim-rt", "victim-client", "https://victim.example/cb"]
MORE = ["\x00", "%zz", "a" * 3000, "victim-verifier-" + "v" * 40, "secret-", "None", "[]"]
OWNER = "owner-of-the-records"
PRIVATE = ["victim-secret", "victim-user", "victim-nonce", "victim-scope-info", "hidden-code", "hidden-rt"]


def extra_records(w):
    w.clients["victim-client"] = client("victim-client", "victim-secret", "client_secret_post", ["https://victim.example/cb"])
    for c in ("cb", "cp", "pub"):
        if w.clients[c].secret:
            w.clients[c].secret = f"top-secret-of-{c}-7Qz81kX4"
    w.users["victim-user"] = type(w.users["u1"])("victim-user")
    for name, uri in (("victim-code", "https://victim.example/cb"), ("hidden-code", "https://victim.example/hidden")):
        w.codes[name] = {"client": "victim-client", "user": "victim-user", "redirect_uri": uri, "scopes": ["openid", "profile"],
                         "challenge": "victim-challenge-" + "q7Zk2Jx9" * 5, "method": "plain", "nonce": "victim-nonce", "auth_time": 0, "expires": clock.NOW + 600}
    for name in ("victim-rt", "hidden-rt"):
        w.refresh[name] = {"token": name, "client": "victim-client", "user": "victim-user", "scopes": ["profile", "email"], "expires": clock.NOW + 600}


def baseline(ctx, name):
    w, endpoint, query, form, headers, user = c10.baseline(ctx, name)
    extra_records(w)
    w.users[OWNER] = type(w.users["u1"])(OWNER)
    for d in (*w.codes.values(), *w.refresh.values()):
        if d["user"] == "u1":
            d["user"] = OWNER
    if "client_secret" in form:
        form["client_secret"] = w.clients["cp"].secret
    if "Authorization" in headers:
        headers["Authorization"] = "Basic " + base64.b64encode(b"cb:" + w.clients["cb"].secret.encode()).decode()
    return w, endpoint, query, form, headers, user


AUTHS = [("cb", "wrong"), ("cb", "top-secret-of-cb-7Qz81kX"), ("victim-client", "victim"), ("cp", "top-secret-of-cb-7Qz81kX4"), ("pub", "x"), ("nobody", "x"), ("cb", "TOP-SECRET-OF-CB-7QZ81KX4")]


def menu(name, values):
    """Deviations as in C10, with this check's values."""
    _, endpoint, query, form, headers, _ = baseline(None, name)
    out = []
    for where, params in (("q", query), ("f", form)):
        out += [["param", where, k, v] for k in params for v in values]
    names = {"authorize": ["nonce"], "consent": [], "token": ["client_id", "client_secret", "code", "refresh_token", "scope"], "revoke": ["client_id", "client_secret"]}[endpoint]
    out += [["param", "f" if form else "q", k, v] for k in names if k not in form and k not in query for v in ("x", "victim-client", "victim-code", "victim-rt")]
    out += [["auth", i] for i in range(len(AUTHS))] + [["noauth"], ["user"], ["deluser"], ["expired"], ["get"], ["raw"]]
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for b in c10.BASELINES:
        wide = VALUES + MORE
        out.append(["dev", b, None, wide])
        n = len(menu(b, wide if deep else VALUES))
        out += [["pair", b, i, wide if deep else VALUES] for i in range(n)]
        for e in range(len(c10.EXCS)):
            out.append(["fault", b, e, None])
        for i in range(0, len(menu(b, VALUES)), max(1, len(menu(b, VALUES)) // 12)):
            out.append(["fault", b, 0, i])
    return out


def bound(tier, case):
    return 2 if tier == "thorough" else 1


def build(ctx, name, devs):
    from urllib.parse import urlencode

    from mc.world import User, make_request
    w, endpoint, query, form, headers, user = baseline(ctx, name)
    query, form, headers = dict(query), dict(form), dict(headers)
    verb, raw, dup = None, None, None
    for d in devs:
        if d[0] == "param":
            target = query if d[1] == "q" else form
            v = d[3]
            if v == "-":
                target.pop(d[2], None)
            elif v == "dup":
                dup = (d[1], d[2])
            else:
                target[d[2]] = "cb" if v == "=cb" else v
        elif d[0] == "auth":
            i, s = AUTHS[d[1]]
            headers["Authorization"] = "Basic " + base64.b64encode(f"{i}:{s}".encode()).decode()
        elif d[0] == "noauth":
            headers.pop("Authorization", None)
        elif d[0] == "user":
            user = None
        elif d[0] == "deluser":
            w.users.pop(OWNER, None)
        elif d[0] == "expired":
            clock.set_now(clock.NOW + 10 ** 6)
        elif d[0] == "get":
            verb = "GET" if form else "POST"
        elif d[0] == "raw":
            raw = b"\xff%ff&=;"
    q, f = urlencode(query), urlencode(form)
    if dup:
        if dup[0] == "q":
            q += "&" + dup[1] + "=again"
        else:
            f += "&" + dup[1] + "=again"
    req = make_request(verb or ("POST" if form else "GET"), "/x", headers=headers, user=User(OWNER) if user else None,
                       raw=raw if raw is not None else f.encode(), raw_query=q)
    sent = unquote_plus(q) + "\n" + unquote_plus(f)
    return w, endpoint, req, sent


def texts(resp):
    """Everything a receiver can read out of a response."""
    raw = " ".join(f"{k}: {v}" for k, v in resp.headers.items()) + "\n" + resp.body.decode("utf-8", "replace")
    out = [raw, unquote_plus(raw)]
    try:
        out.append(repr(strict_json(resp.body)))
    except ValueError:
        pass
    loc = location(resp)
    if loc:
        out.append(repr(query_of(loc)))
    for t in list(out):
        for piece in re.findall(r"[A-Za-z0-9_+/-]{8,}", t):
            piece = piece.replace("-", "+").replace("_", "/")
            try:
                out.append(base64.b64decode(piece + "=" * (-len(piece) % 4)).decode("utf-8", "replace"))
            except ValueError:
                pass
    return "\n".join(out)


def pieces(w):
    """All runs of 8 characters of the secrets of the storage that are no plain words."""
    whole = [VERIFIER, CHALLENGE, "hidden-code", "hidden-rt", *(c.secret for c in w.clients.values() if c.secret), *(d["challenge"] for d in w.codes.values())]
    return {x[i:i + 8] for x in whole for i in range(len(x) - 7) if x == CHALLENGE or any(ch.isdigit() for ch in x[i:i + 8])}


def judge(ctx, w, endpoint, req, sent, info):
    live = set(w.codes) | set(w.refresh)
    try:
        resp = c10.call(w, endpoint, req)
    except Exception:
        ctx.trace()
        return  # whether it may raise is C10's question
    ctx.trace()
    if not isinstance(resp, Response):
        ctx.outcome("consent")
        return
    text = texts(resp)
    info = dict(info, response=[resp.status_code, dict(resp.headers), repr(resp.body)])
    for c in w.clients.values():
        if c.secret:
            ctx.check(c.secret not in text, "a client secret was revealed", secret=c.secret, **info)
    for what in (VERIFIER, CHALLENGE, "victim-challenge"):
        ctx.check(what not in text, "a code verifier or challenge was revealed", what=what, **info)
    known = sent + str(req.headers) + base64.b64decode(str(req.headers.get("authorization", "")).partition(" ")[2]).decode("utf-8", "replace")
    for what in pieces(w):
        ctx.check(what in known or what not in text, "a part of a secret was revealed", part=what, **info)
    for what in PRIVATE:
        ctx.check(what not in text, "data of another client or user was revealed", what=what, **info)
    for what in ("victim-code", "victim-rt", "victim-client", "victim.example", "the-rt", "the-code"):
        ctx.check(what in sent or what not in text, "data of another client or user was revealed", what=what, **info)
    for what in ("torage failure", "StorageFailure", "Traceback", "Error(", " object at 0x", ".py"):
        ctx.check(what in sent or what not in text, "an internal failure was revealed", what=what, **info)
    for key in w.provider.config.keyset.keys if hasattr(w.provider, "config") else []:
        ctx.check(key.dump(False)["k"] not in text, "a signing key was revealed", **info)
    loc = location(resp)
    success = "code" in query_of(loc) if loc else resp.status_code == 200
    new = [t["token"] for t in w.issued] + [c for c in w.codes if c not in live]
    if not success:
        ctx.check(OWNER not in text, "an error response names the user", **info)
        for t in new:
            ctx.check(t not in text, "an error response carries a code or token", token=t, **info)
    ctx.outcome("success" if success else "error")
    ctx.state(endpoint, resp.status_code, resp.body, {k: v for k, v in resp.headers.items() if not success}, w.fault_fired)


def run_case(ctx, case):
    kind, name, i, arg = case
    if kind == "fault":
        w, endpoint, req, sent = build(ctx, name, [] if arg is None else [menu(name, VALUES)[arg]])
        w.faults = True
        w.fault_exc = c10.EXCS[i]
        judge(ctx, w, endpoint, req, sent, dict(baseline=name, exception=c10.EXCS[i].__name__, deviation=arg))
        return
    m = menu(name, arg)
    sets = [[], *([d] for d in m)] if kind == "dev" else [[m[i], d] for d in m[i + 1:]]
    for devs in sets:
        w, endpoint, req, sent = build(ctx, name, devs)
        judge(ctx, w, endpoint, req, sent, dict(baseline=name, deviations=devs))
