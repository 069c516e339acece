"""The environment of the provider: storage adapter, clients, users, requests, faults."""
import asyncio
import base64
import contextvars
import copy
import json
from urllib.parse import parse_qsl, urlencode, urlsplit

from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.oauth2.adapter import BaseAdapter
from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant
from psion.oauth2.mixins import AuthorizationCodeMixin, ClientMixin, RefreshTokenMixin, UserMixin
from psion.oauth2.models import Request, Scope
from psion.oauth2.providers.base import BaseProvider

from . import clock, ref
from .loop import run

ALL_GRANTS = {
    "authorization_code": AuthorizationCodeGrant,
    "client_credentials": ClientCredentialsGrant,
    "refresh_token": RefreshTokenGrant,
}
ISSUER = "https://as.example"
ERROR_URL = "https://as.example/error"
VERIFIER = "verifier-" + "0123456789" * 4  # 49 characters
CHALLENGE = ref.s256(VERIFIER)
CODE_LIFE = 600
REFRESH_LIFE = 86400
REQ = contextvars.ContextVar("REQ", default="-")


class StorageFailure(Exception):
    """An arbitrary failure of the application's storage."""


class Client(ClientMixin):
    def __init__(self, id, secret, method, uris, grants, responses, scopes):
        self.id, self.secret, self.method = id, secret, method
        self.uris, self.grants, self.responses, self.scopes = list(uris), list(grants), list(responses), list(scopes)

    def get_client_id(self):
        return self.id

    def get_client_secret(self):
        return self.secret

    def get_client_public_key(self, key_id):
        return None

    def get_allowed_scopes(self, scopes):
        if scopes is None:
            return list(self.scopes)
        return [s for s in self.scopes if s in scopes]

    def get_redirect_uris(self):
        return list(self.uris)

    def get_token_endpoint_auth_method(self):
        return self.method

    def get_grant_types(self):
        return list(self.grants)

    def get_response_types(self):
        return list(self.responses)


class User(UserMixin):
    def __init__(self, id):
        self.id = id

    def get_user_id(self):
        return self.id


class Code(AuthorizationCodeMixin):
    def __init__(self, d):
        self.d = d

    def get_client_id(self):
        return self.d["client"]

    def get_user_id(self):
        return self.d["user"]

    def get_redirect_uri(self):
        return self.d["redirect_uri"]

    def get_scopes(self):
        return list(self.d["scopes"])

    def get_code_challenge(self):
        return self.d["challenge"]

    def get_code_challenge_method(self):
        return self.d["method"]

    def get_nonce(self):
        return self.d["nonce"]

    def get_auth_time(self):
        return self.d["auth_time"]

    def get_expiration(self):
        return clock.utc_naive(self.d["expires"])


class Refresh(RefreshTokenMixin):
    def __init__(self, d):
        self.d = d

    def get_refresh_token(self):
        return self.d["token"]

    def get_client_id(self):
        return self.d["client"]

    def get_user_id(self):
        return self.d["user"]

    def get_scopes(self):
        return list(self.d["scopes"])

    def get_expiration(self):
        return clock.utc_naive(self.d["expires"])


SCOPES = ["openid", "profile", "email", "admin"]


def default_clients():
    everything = list(ALL_GRANTS)
    return {
        "cb": Client("cb", "secret-b", "client_secret_basic",
                     ["https://cb.example/cb", "https://cb.example/alt"], everything, ["code"], SCOPES),
        "cp": Client("cp", "secret-p", "client_secret_post", ["https://cp.example/cb"], everything, ["code"], SCOPES),
        "pub": Client("pub", None, "none", ["https://pub.example/cb"], everything, ["code"], SCOPES),
    }


def oct_keyset(*kids):
    return JsonWebKeySet([JsonWebKey({"kty": "oct", "k": ref.b64(b"s" * 31 + kid.encode()[-1:]), "kid": kid})
                          for kid in (kids or ("k1",))])


_KEYSET = None


def default_keyset():
    global _KEYSET
    if _KEYSET is None:
        _KEYSET = oct_keyset("k1")
    return _KEYSET


class Provider(BaseProvider):
    async def create_request(self, request):
        return request

    async def create_response(self, response):
        return response


class World:
    """A provider together with an in-memory storage that is fully observed and controlled."""

    def __init__(self, ctx=None, *, grants=None, scopes=None, clients=None, users=("u1", "u2"), keyset=None,
                 error_url=ERROR_URL, issuer=ISSUER, lifespan=3600, id_lifespan=36000, hooks=(),
                 provider_cls=Provider, shared=False, key_info=None):
        self.ctx = ctx
        self.clients = clients if clients is not None else default_clients()
        self.users = {u: User(u) for u in users}
        self.codes = {}
        self.refresh = {}
        self.revoked = []          # (client id, token, hint) as asked
        self.issued = []           # access/refresh tokens in order of creation
        self.log = []              # every adapter call: (request, name, args)
        self.counter = 0
        self.yields = None         # None | "before" | "both"
        self.faults = False        # explore a fault at every adapter call
        self.fault_kinds = 2       # before the effect / after the effect
        self.fault_exc = StorageFailure
        self.fault_fired = None
        self.attempts = []         # every storage access, those that fail as well
        self.fault_names = None
        self.fault_label = None    # faults only in the handling of this request
        self.shared = shared
        self.label_tokens = False
        self.token_value = None    # value of the tokens created, instead of a counter
        self.key_info = key_info
        self.userinfo = {}
        self.event = None          # (k, f): call f() just before the effect of the k-th storage access
        self.accesses = []         # names of the storage accesses since the event was set
        self.adapters = []
        world = self

        class Adapter(BaseAdapter):
            def __init__(self):
                world.adapters.append(self)

            async def find_user(self, user_id):
                return await world.call("find_user", (user_id,), world.do_find_user)

            async def find_client(self, client_id):
                return await world.call("find_client", (client_id,), world.do_find_client)

            async def save_authorization_code(self, code, data, client, user):
                return await world.call("save_authorization_code", (code, data, client, user), world.do_save)

            async def get_authorization_code(self, code):
                return await world.call("get_authorization_code", (code,), world.do_get_code)

            async def delete_authorization_code(self, code):
                return await world.call("delete_authorization_code", (code,), world.do_delete)

            async def create_access_token(self, client, resource_owner, scopes):
                return await world.call("create_access_token", (client, resource_owner, scopes), world.do_access)

            async def get_userinfo(self, user, scopes):
                return await world.call("get_userinfo", (user, scopes), world.do_userinfo)

            async def get_key_info(self):
                return await world.call("get_key_info", (), world.do_key_info)

            async def create_refresh_token(self, client, user, scopes):
                return await world.call("create_refresh_token", (client, user, scopes), world.do_refresh)

            async def get_refresh_token(self, refresh_token):
                return await world.call("get_refresh_token", (refresh_token,), world.do_get_refresh)

            async def revoke_token(self, client, token, token_type_hint=None):
                return await world.call("revoke_token", (client, token, token_type_hint), world.do_revoke)

        self.scopes = list(SCOPES if scopes is None else scopes)
        self.error_url = error_url
        self.issuer = issuer
        self.lifespan = lifespan
        self.provider = provider_cls(
            issuer,
            adapter=Adapter,
            grants=[ALL_GRANTS[g] if isinstance(g, str) else g for g in (ALL_GRANTS if grants is None else grants)],
            scopes=[Scope(s) for s in self.scopes],
            keyset=keyset if keyset is not None else default_keyset(),
            error_url=error_url,
            token_lifespan=lifespan,
            id_token_lifespan=id_lifespan,
        )
        for grant, hook in hooks:
            self.provider.add_hook(ALL_GRANTS[grant] if isinstance(grant, str) else grant, hook)

    # -- adapter machinery ------------------------------------------------
    async def call(self, name, args, effect):
        if self.yields:
            await asyncio.sleep(0)
        kind = 0
        self.attempts.append((name, args))
        if self.ctx is not None:
            self.ctx.step()
        if self.faults and self.ctx is not None and (self.fault_names is None or name in self.fault_names) \
                and self.fault_label in (None, REQ.get()):
            kind = self.ctx.choose(1 + self.fault_kinds, f"fault:{name}", (0,) + (1,) * self.fault_kinds)
        if kind == 1:
            self.fault_fired = (REQ.get(), name, "before")
            raise self.failure(name)
        if self.event:
            if len(self.accesses) == self.event[0]:
                self.event[1]()
            self.accesses.append(name)
        self.log.append((REQ.get(), name, self.describe(args)))
        result = effect(*args)
        if kind == 2:
            self.fault_fired = (REQ.get(), name, "after")
            raise self.failure(name)
        if self.yields == "both":
            await asyncio.sleep(0)
        return result

    def failure(self, name):
        kind = self.fault_exc
        if isinstance(kind, list):  # any of them
            kind = kind[self.ctx.choose(len(kind), "exception", (0,) * len(kind))]
        return kind(f"storage failure in {name}")

    @staticmethod
    def describe(args):
        out = []
        for a in args:
            if isinstance(a, Client):
                out.append(f"client:{a.id}")
            elif isinstance(a, User):
                out.append(f"user:{a.id}")
            elif isinstance(a, dict):
                out.append(tuple(sorted((k, repr(v)) for k, v in a.items())))
            elif isinstance(a, (list, tuple)):
                out.append(tuple(map(str, a)))
            else:
                out.append(a if a is None else str(a))
        return tuple(out)

    def happen(self, k, f):
        """Let f() happen just before the k-th storage access from now on."""
        self.event, self.accesses = (k, f), []

    def before(self, name):
        """Whether the event happened before the first access of that name (there being none counts, too)."""
        k = self.event[0]
        return k < len(self.accesses) and (name not in self.accesses or k <= self.accesses.index(name))

    def fetch(self, obj):
        return obj if self.shared or obj is None else copy.deepcopy(obj)

    def do_find_user(self, user_id):
        return self.fetch(self.users.get(user_id))

    def do_find_client(self, client_id):
        return self.fetch(self.clients.get(client_id))

    def do_save(self, code, data, client, user):
        self.codes[code] = {
            "client": client.get_client_id(), "user": user.get_user_id(),
            "redirect_uri": data["redirect_uri"], "scopes": list(data["scopes"]),
            "challenge": data["code_challenge"], "method": data["code_challenge_method"],
            "nonce": data.get("nonce"), "auth_time": int(clock.NOW), "expires": clock.NOW + CODE_LIFE,
        }

    def do_get_code(self, code):
        d = self.codes.get(code)
        return Code(dict(d)) if d else None

    def do_delete(self, code):
        self.codes.pop(code, None)

    def token(self, kind, client, owner, scopes):
        self.counter += 1
        who = owner.get_user_id() if isinstance(owner, UserMixin) else (
            owner.get_client_id() if isinstance(owner, ClientMixin) else repr(owner))
        rec = {"kind": kind, "client": client.get_client_id(),
               "owner": who, "owner_is_client": isinstance(owner, ClientMixin),
               "scopes": list(scopes) if scopes is not None else None, "request": REQ.get()}
        if self.label_tokens:
            rec["token"] = f"{kind}-{REQ.get()}-{rec['client']}-{who}-{'.'.join(rec['scopes'] or [])}"
        elif self.token_value is not None:
            rec["token"] = self.token_value
        else:
            rec["token"] = f"{kind}-{self.counter}"
        self.issued.append(rec)
        return rec

    def do_access(self, client, owner, scopes):
        return self.token("at", client, owner, scopes)["token"]

    def do_refresh(self, client, user, scopes):
        rec = self.token("rt", client, user, scopes)
        self.refresh[rec["token"]] = {"token": rec["token"], "client": rec["client"], "user": rec["owner"],
                                      "scopes": list(rec["scopes"]), "expires": clock.NOW + REFRESH_LIFE}
        return rec["token"]

    def do_get_refresh(self, token):
        d = self.refresh.get(token)
        return Refresh(dict(d)) if d else None

    def do_revoke(self, client, token, hint):
        self.revoked.append((client.get_client_id(), token, hint))
        d = self.refresh.get(token)
        if d and d["client"] == client.get_client_id():
            del self.refresh[token]

    def do_userinfo(self, user, scopes):
        info = {"sub": user.get_user_id()}
        for s in scopes:
            if s in ("profile", "email"):
                info[s + "_info"] = f"{s} of {user.get_user_id()}"
        info.update(self.userinfo)
        return info

    def do_key_info(self):
        if self.key_info:
            return dict(self.key_info)
        return {"key": default_keyset().get_key("k1"), "alg": "HS256"}

    def snapshot(self):
        return (tuple(sorted((c, repr(sorted(d.items(), key=str))) for c, d in self.codes.items())),
                tuple(sorted((c, repr(sorted(d.items(), key=str))) for c, d in self.refresh.items())),
                len(self.issued), len(self.revoked), tuple(sorted(self.users)))

    def abstract(self):
        """Snapshot without the random code values."""
        return (tuple(sorted((d["client"], d["user"], d["redirect_uri"], tuple(d["scopes"]), d["expires"], str(d["nonce"]))
                             for d in self.codes.values())),
                tuple(sorted((t, d["client"], d["user"], tuple(d["scopes"]), d["expires"]) for t, d in self.refresh.items())),
                len(self.issued), len(self.revoked), tuple(sorted(self.users)), clock.NOW)

    # -- requests ---------------------------------------------------------
    def auth_params(self, client="cb", **over):
        uris = self.clients[client].uris if client in self.clients else ["https://unknown.example/cb"]
        p = {"response_type": "code", "client_id": client, "redirect_uri": uris[0] if uris else "https://none.example/",
             "code_challenge": CHALLENGE, "code_challenge_method": "S256", "scope": "profile", "state": "st-1"}
        p.update(over)
        return {k: v for k, v in p.items() if v is not None}

    def auth_request(self, params, user="u1", method="GET"):
        u = self.users.get(user) or User(user) if user else None
        if method == "GET":
            return make_request("GET", "/authorize", query=params, user=u)
        return make_request("POST", "/authorize", form=params, user=u)

    def client_auth(self, client, form):
        """Form and headers of a correct authentication of `client`."""
        c = self.clients[client]
        if c.method == "client_secret_basic":
            return form, {"Authorization": basic(c.id, c.secret)}
        if c.method == "client_secret_post":
            return {**form, "client_id": c.id, "client_secret": c.secret}, {}
        return {**form, "client_id": c.id}, {}

    def code_form(self, code, client="cb", **over):
        p = {"grant_type": "authorization_code", "code": code,
             "redirect_uri": self.clients[client].uris[0] if client in self.clients else "x",
             "code_verifier": VERIFIER}
        p.update(over)
        return {k: v for k, v in p.items() if v is not None}

    def token_request(self, form, client="cb", path="/token"):
        f, h = self.client_auth(client, form)
        return make_request("POST", path, form=f, headers=h)

    # -- synchronous drivers ----------------------------------------------
    def send(self, endpoint, request, label="r"):
        token = REQ.set(label)
        try:
            return run(getattr(self.provider, endpoint)(request))
        finally:
            REQ.reset(token)

    def issue_code(self, client="cb", user="u1", **over):
        """Obtain a code through the real authorization endpoint."""
        before = set(self.codes)
        resp = self.send("authorize", self.auth_request(self.auth_params(client, **over), user), "issue")
        loc = location(resp)
        new = set(self.codes) - before
        params = dict(parse_qsl(urlsplit(loc).query, keep_blank_values=True))
        if len(new) != 1 or params.get("code") not in new:
            raise AssertionError(f"no code was issued: {loc}")
        return params["code"]

    def issue_refresh(self, client="cb", user="u1", scope="profile"):
        code = self.issue_code(client, user, scope=scope)
        r = self.send("token", self.token_request(self.code_form(code, client), client), "issue")
        return body(r)["refresh_token"]


def basic(cid, secret):
    return "Basic " + base64.b64encode(f"{cid}:{secret}".encode()).decode()


def make_request(method, path, query=None, form=None, headers=None, user=None, raw=None, raw_query=None):
    url = ISSUER + path
    q = raw_query if raw_query is not None else (urlencode(query) if query else "")
    if q:
        url += "?" + q
    data = raw if raw is not None else (urlencode(form).encode() if form else b"")
    h = {"Host": "as.example"}
    if form is not None or raw is not None:
        h["Content-Type"] = "application/x-www-form-urlencoded"
    h.update(headers or {})
    return Request(method=method, url=url, headers=h, body=data, user=user)


def header(resp, name):
    vals = [v for k, v in resp.headers.items() if k.lower() == name.lower()]
    if len(vals) > 1:
        raise AssertionError(f"header {name} appears twice: {resp.headers}")
    return vals[0] if vals else None


def location(resp):
    return header(resp, "location")


def _pairs(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("duplicate member in JSON object")
    return d


def _const(x):
    raise ValueError(f"{x} is not JSON")


def strict_json(data):
    return json.loads(data.decode("utf-8"), object_pairs_hook=_pairs, parse_constant=_const)


def body(resp):
    return strict_json(resp.body)


def granted(resp):
    """True iff a token endpoint response delivers tokens."""
    if resp is None:
        return False
    try:
        b = body(resp)
    except ValueError:
        return False
    return isinstance(b, dict) and bool(b.get("access_token") or b.get("refresh_token") or b.get("id_token"))


def error_of(resp):
    try:
        b = body(resp)
    except Exception:
        return None
    return b.get("error") if isinstance(b, dict) else None


def query_of(url):
    return dict(parse_qsl(urlsplit(url).query, keep_blank_values=True))


async def labelled(label, coro):
    REQ.set(label)
    return await coro
