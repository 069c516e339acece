"""What the application changes between two requests, and the comparison with a fresh provider over the same data.

A history is a sequence of changes to the application's data (registrations, users, stored codes and tokens,
keys, the clock). Before the first and after every change all requests are sent to one provider; each answer
must be the one of a provider created just then over a copy of the data.
"""
import copy
import itertools

from . import clock, ref
from .util import effects
from .world import (CHALLENGE, REQ, SCOPES, VERIFIER, Client, User, World, basic, location, make_request,
                    oct_keyset)
from .loop import run
from psion.oidc import AuthorizationCodeFlow

ALL = ["authorization_code", "client_credentials", "refresh_token"]
URI = {c: [f"https://{c}.example/cb", f"https://{c}.example/alt", f"https://{c}.example/new"] for c in ("cb", "cp", "pub")}
_RING = None


def ring():
    global _RING
    if _RING is None:
        _RING = oct_keyset("k1", "k2")
    return _RING


def clients():
    def one(i, secret, method):
        return Client(i, secret, method, URI[i][:2], ALL, ["code"], ["openid", "profile", "email"])
    return {"cb": one("cb", "secret-b", "client_secret_basic"), "cp": one("cp", "secret-p", "client_secret_post"),
            "pub": one("pub", None, "none")}


def records(w):
    """The codes and refresh tokens every request finds, whatever earlier requests did."""
    w.codes.clear()
    w.refresh.clear()
    for c in ("cb", "cp", "pub"):
        for kind, scopes in (("plain", ["profile", "email"]), ("oidc", ["openid", "profile"])):
            w.codes[f"{kind}-{c}"] = {"client": c, "user": "u1", "redirect_uri": URI[c][0], "scopes": scopes, "challenge": CHALLENGE,
                                      "method": "S256", "nonce": "n-" + c, "auth_time": 0, "expires": clock.BASE + 600}
        w.refresh["rt-" + c] = {"token": "rt-" + c, "client": c, "user": "u1", "scopes": ["profile", "email"], "expires": clock.BASE + 900}
    for mutate in w.tweaks:
        mutate(w)


def _client(name):
    def deco(f):
        def change(w):
            if name in w.clients:
                f(w.clients[name])
        CHANGES[f.__name__.replace("_", "-")] = change
        return change
    return deco


CHANGES = {}


@_client("cb")
def cb_secret(c):
    c.secret = "secret-b2"


@_client("cp")
def cp_secret(c):
    c.secret = "secret-p2"


@_client("cb")
def cb_swap(c):
    c.secret = "secret-p"


@_client("cb")
def cb_post(c):
    c.method = "client_secret_post"


@_client("cp")
def cp_basic(c):
    c.method = "client_secret_basic"


@_client("cb")
def cb_public(c):
    c.method, c.secret = "none", None


@_client("pub")
def pub_secret(c):
    c.method, c.secret = "client_secret_post", "secret-u"


@_client("cb")
def cb_alt_only(c):
    c.uris = [URI["cb"][1]]


@_client("cb")
def cb_new_uri(c):
    c.uris = list(URI["cb"])


@_client("pub")
def pub_alt_only(c):
    c.uris = [URI["pub"][1]]


@_client("cb")
def cb_no_code(c):
    c.grants = ["client_credentials", "refresh_token"]


@_client("cb")
def cb_no_cc(c):
    c.grants = ["authorization_code", "refresh_token"]


@_client("cb")
def cb_no_refresh(c):
    c.grants = ["authorization_code", "client_credentials"]


@_client("cb")
def cb_no_grants(c):
    c.grants = []


@_client("cb")
def cb_no_response(c):
    c.responses = []


@_client("cb")
def cb_fewer_scopes(c):
    c.scopes = ["email"]


@_client("cb")
def cb_other_scopes(c):
    c.scopes = ["openid", "admin"]


@_client("cb")
def cb_more_scopes(c):
    c.scopes = list(SCOPES)


def change(f):
    CHANGES[f.__name__.replace("_", "-")] = f
    return f


@change
def cb_gone(w):
    w.clients.pop("cb", None)


@change
def cp_gone(w):
    w.clients.pop("cp", None)


@change
def pub_gone(w):
    w.clients.pop("pub", None)


@change
def restore(w):
    w.clients.clear()
    w.clients.update(clients())
    w.users.clear()
    w.users.update({u: User(u) for u in ("u1", "u2")})
    w.tweaks.clear()
    w.userinfo.clear()
    w.key_info = {"key": ring().get_key("k1"), "alg": "HS256"}
    clock.set_now(clock.BASE)


@change
def user_gone(w):
    w.users.pop("u1", None)


@change
def user_info(w):
    w.userinfo["name"] = "Renamed"


@change
def new_key(w):
    w.key_info = {"key": ring().get_key("k2"), "alg": "HS256"}


@change
def later(w):
    clock.set_now(clock.BASE + 300)


@change
def codes_expired(w):
    clock.set_now(clock.BASE + 700)


@change
def all_expired(w):
    clock.set_now(clock.BASE + 1000)


def _tweak(name, f):
    def change_(w):
        w.tweaks.append(f)
    CHANGES[name] = change_


def _each(store, **values):
    def f(w):
        for d in getattr(w, store).values():
            d.update(copy.deepcopy(values))
    return f


def _owners(store):
    def f(w):  # what cb had belongs to cp now, and the reverse
        for d in getattr(w, store).values():
            d["client"] = {"cb": "cp", "cp": "cb"}.get(d["client"], d["client"])
    return f


_tweak("code-scopes", _each("codes", scopes=["email"]))
_tweak("code-user", _each("codes", user="u2"))
_tweak("code-nonce", _each("codes", nonce="other"))
_tweak("code-challenge", _each("codes", challenge=ref.s256(VERIFIER[::-1])))
_tweak("code-owner", _owners("codes"))
_tweak("codes-deleted", lambda w: w.codes.clear())
_tweak("token-scopes", _each("refresh", scopes=["email"]))
_tweak("token-user", _each("refresh", user="u2"))
_tweak("token-owner", _owners("refresh"))
_tweak("tokens-revoked", lambda w: w.refresh.clear())
_tweak("tokens-extended", _each("refresh", expires=clock.BASE + 5000))
_tweak("codes-extended", _each("codes", expires=clock.BASE + 5000))


def _auth(client, secret, how, form):
    if how == "basic":
        return make_request("POST", "/x", form=form, headers={"Authorization": basic(client, secret)})
    f = {**form, "client_id": client}
    if secret is not None:
        f["client_secret"] = secret
    return make_request("POST", "/x", form=f)


WAYS = [("cb", "secret-b", "basic"), ("cb", "secret-b2", "basic"), ("cb", "secret-p", "basic"), ("cb", "secret-b", "post"), ("cb", None, "post"),
        ("cp", "secret-p", "post"), ("cp", "secret-p2", "post"), ("cp", "secret-p", "basic"), ("pub", None, "post"), ("pub", "secret-u", "post")]


def requests():
    """name -> (endpoint, request factory)"""
    out = {}

    def auth(name, client, uri, scope, endpoint="authorize", user="u1", **more):
        p = {"client_id": client, "redirect_uri": uri, "response_type": "code", "code_challenge": CHALLENGE, "code_challenge_method": "S256",
             "scope": scope, "state": "st", **more}
        out[f"{endpoint}:{client}:{name}"] = (endpoint, lambda: make_request("GET", "/authorize", query=p, user=user and User(user)))

    for c in ("cb", "pub"):
        for n, uri in zip(("own", "alt", "new"), URI[c]):
            auth(n, c, uri, "profile")
            auth(n, c, uri, "profile", "consent")
    for scope in ("email", "profile email", "openid", "admin", "openid admin"):
        auth("scope=" + scope, "cb", URI["cb"][0], scope)
        auth("scope=" + scope, "cb", URI["cb"][0], scope, "consent")
    auth("nouser", "cb", URI["cb"][0], "profile", user=None)

    def token(name, endpoint, form, way):
        out[f"{name}:{way[0]}:{way[1]}:{way[2]}"] = (endpoint, lambda: _auth(*way, form))

    for way in WAYS:
        c = way[0]
        token("cc", "token", {"grant_type": "client_credentials"}, way)
        token("cc=email", "token", {"grant_type": "client_credentials", "scope": "email"}, way)
        for kind in ("plain", "oidc"):
            token(f"code-{kind}", "token", {"grant_type": "authorization_code", "code": f"{kind}-{c}", "redirect_uri": URI[c][0],
                                            "code_verifier": VERIFIER}, way)
        token("refresh", "token", {"grant_type": "refresh_token", "refresh_token": "rt-" + c}, way)
        token("refresh=profile", "token", {"grant_type": "refresh_token", "refresh_token": "rt-" + c, "scope": "profile"}, way)
        token("revoke", "revoke", {"token": "rt-" + c}, way)
    for way in WAYS[:1] + WAYS[5:6]:
        c = way[0]
        token("cc=admin", "token", {"grant_type": "client_credentials", "scope": "admin"}, way)
        token("code-reversed", "token", {"grant_type": "authorization_code", "code": f"plain-{c}", "redirect_uri": URI[c][0],
                                         "code_verifier": VERIFIER[::-1]}, way)
        token("code-alt", "token", {"grant_type": "authorization_code", "code": f"plain-{c}", "redirect_uri": URI[c][1],
                                    "code_verifier": VERIFIER}, way)
        token("code-other", "token", {"grant_type": "authorization_code", "code": f"plain-{'cp' if c == 'cb' else 'cb'}",
                                      "redirect_uri": URI["cp" if c == "cb" else "cb"][0], "code_verifier": VERIFIER}, way)
        token("refresh-other", "token", {"grant_type": "refresh_token", "refresh_token": f"rt-{'cp' if c == 'cb' else 'cb'}"}, way)
    return out


REQUESTS = requests()


def build(ctx, shared=False, oidc=True, **over):
    clock.set_now(clock.BASE)
    w = World(ctx, clients=clients(), keyset=ring(), shared=shared,
              hooks=[("authorization_code", AuthorizationCodeFlow)] if oidc else [],
              key_info={"key": ring().get_key("k1"), "alg": "HS256"}, **over)
    w.label_tokens = True
    w.tweaks = []
    return w


def send(w, name):
    endpoint, factory = REQUESTS[name]
    records(w)
    return observe(w, endpoint, factory())


def observe(w, endpoint, request):
    """The answer and its effects, without the random code."""
    known = set(w.codes)
    del w.log[:], w.issued[:], w.revoked[:]
    token = REQ.set("r")
    try:
        target = w.provider.authorize.get_consent_data if endpoint == "consent" else getattr(w.provider, endpoint)
        try:
            resp = run(target(request))
        except Exception as e:
            return ("raised", type(e).__name__)
    finally:
        REQ.reset(token)
    new = [c for c in w.codes if c not in known]

    def clean(x):
        for c in new:
            x = str(x).replace(c, "<code>")
        return str(x)

    if isinstance(resp, dict):
        answer = ("consent", resp["client"].get_client_id(), tuple(str(getattr(s, "name", s)) for s in resp["scopes"])) \
            if {"client", "scopes"} <= set(resp) else ("consent", repr(sorted(resp)))
    else:
        answer = (resp.status_code, clean(location(resp)), clean(sorted((k.lower(), v) for k, v in resp.headers.items())), clean(resp.body.decode()))
    # what is passed to save_authorization_code is judged by the record it leaves
    done = tuple((e[1], clean(e[2]) if e[1] != "save_authorization_code" else "") for e in effects(w.log))
    stored = tuple(sorted((clean(c), repr(sorted(d.items(), key=str))) for c, d in w.codes.items() if c in new))
    return (answer, done, stored, tuple(repr(sorted(t.items(), key=str)) for t in w.issued), tuple(w.revoked))


_FRESH = {}


def fresh(seq, name, oidc):
    """The answer of a provider created after the changes `seq` (memoised: the answers are deterministic)."""
    key = (seq, oidc)
    if key not in _FRESH:
        if len(_FRESH) > 3000:
            _FRESH.clear()
        _FRESH[key] = {}
    if name not in _FRESH[key]:
        before = clock.NOW
        w = build(None, oidc=oidc)
        for c in seq:
            CHANGES[c](w)
        _FRESH[key][name] = send(w, name)
        clock.set_now(before)
    return _FRESH[key][name]


def shorten(seq):
    """Changes since the last restore; a restore undoes everything before it."""
    while "restore" in seq:
        seq = seq[seq.index("restore") + 1:]
    return seq


def served(v):
    """True iff the answer is a success (tokens, a code, consent data, a revocation)."""
    if v[0] == "raised":
        return False
    a = v[0]
    return a[0] in ("consent", 200) or "code=%3Ccode%3E" in a[1] or "<code>" in a[1]


def explore(ctx, histories, names, view=lambda v: v, oidc=True, what="the answer is not that of a provider created just now", shared=(False, True)):
    """Run every history; `names` are the requests sent before it and after each change."""
    for seq in histories:
        seq = tuple(seq)
        for sh in shared:
            w = build(ctx, shared=sh, oidc=oidc)
            for i in range(len(seq) + 1):
                if i:
                    CHANGES[seq[i - 1]](w)
                for n in names:
                    got, want = view(send(w, n)), view(fresh(shorten(seq[:i]), n, oidc))
                    ctx.trace()
                    ctx.check(got == want, what, changes=seq[:i], request=n, got=got, want=want)
            ctx.state("hist", seq, sh, oidc)
            ctx.outcome(f"history:{len(seq)}")
    clock.set_now(clock.BASE)


def sequences(menu, n, first=None):
    for k in range(1, n + 1):
        for s in itertools.product(menu, repeat=k):
            if first is None or s[0] == first:
                yield s


def pick(*prefixes):
    return [n for n in REQUESTS if n.startswith(prefixes)]


def outcome(v):
    """Served or not, and the tokens and codes created."""
    return (served(v), v[2:]) if v[0] != "raised" else v


def add(module, changes, names, view=outcome, what="decided on data that is no longer current"):
    """Extends a check module by all histories of <=2 (thorough: 3) of the changes."""
    cases, run_case, bound = module["cases"], module["run_case"], module.get("bound")
    assert all(c in CHANGES for c in changes) and names
    changes = list(changes)

    def new_cases(tier):
        return cases(tier) + [["history-of-changes", c] for c in changes]

    def new_run(ctx, case):
        if case[0] != "history-of-changes":
            return run_case(ctx, case)
        explore(ctx, sequences(changes, 3 if ctx.tier == "thorough" else 2, case[1]), names, view, what=what)

    module.update(cases=new_cases, run_case=new_run)
    if bound:
        module["bound"] = lambda tier, case: None if case[0] == "history-of-changes" else bound(tier, case)
    for tier, n in (("quick", 2), ("thorough", 3)):
        module["BOUNDS"][tier] += f"; {len(names)} requests before and after every history of <={n} of {len(changes)} changes of the application's data"
