"""Small in-memory application around psion, for demonstrations."""
import asyncio
import base64
import hashlib
import json
import os
import sys
from datetime import datetime, timedelta
from urllib.parse import parse_qsl, urlencode, urlsplit

sys.path.insert(0, os.path.join(os.getcwd(), "src"))

from psion.jose.jwk import JsonWebKey, JsonWebKeySet  # noqa: E402
from psion.oauth2.adapter import BaseAdapter  # noqa: E402
from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant  # noqa: E402
from psion.oauth2.mixins import AuthorizationCodeMixin, ClientMixin, RefreshTokenMixin, UserMixin  # noqa: E402
from psion.oauth2.models import Request, Scope  # noqa: E402
from psion.oauth2.providers.base import BaseProvider  # noqa: E402

VERIFIER = "v" * 50
CHALLENGE = base64.urlsafe_b64encode(hashlib.sha256(VERIFIER.encode()).digest()).rstrip(b"=").decode()
EVERY = ["authorization_code", "client_credentials", "refresh_token"]


class Client(ClientMixin):
    def __init__(self, id, secret, method, uris, grants=EVERY, responses=("code",), scopes=("openid", "profile", "email")):
        self.id, self.secret, self.method, self.uris = id, secret, method, list(uris)
        self.grants, self.responses, self.scopes = list(grants), list(responses), list(scopes)

    def get_client_id(self): return self.id
    def get_client_secret(self): return self.secret
    def get_client_public_key(self, key_id): return None
    def get_allowed_scopes(self, scopes):
        return list(self.scopes) if scopes is None else [s for s in self.scopes if s in scopes]
    def get_redirect_uris(self): return list(self.uris)
    def get_token_endpoint_auth_method(self): return self.method
    def get_grant_types(self): return list(self.grants)
    def get_response_types(self): return list(self.responses)


class User(UserMixin):
    def __init__(self, id): self.id = id
    def get_user_id(self): return self.id


class Code(AuthorizationCodeMixin):
    def __init__(self, d): self.d = d
    def get_client_id(self): return self.d["client"]
    def get_user_id(self): return self.d["user"]
    def get_redirect_uri(self): return self.d["redirect_uri"]
    def get_scopes(self): return list(self.d["scopes"])
    def get_code_challenge(self): return self.d["challenge"]
    def get_code_challenge_method(self): return self.d["method"]
    def get_nonce(self): return self.d["nonce"]
    def get_auth_time(self): return 0
    def get_expiration(self): return self.d["expires"]


class Refresh(RefreshTokenMixin):
    def __init__(self, d): self.d = d
    def get_refresh_token(self): return self.d["token"]
    def get_client_id(self): return self.d["client"]
    def get_user_id(self): return self.d["user"]
    def get_scopes(self): return list(self.d["scopes"])
    def get_expiration(self): return self.d["expires"]


class App:
    def __init__(self, clients=None, grants=(AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant), hooks=(),
                 scopes=("openid", "profile", "email"), key=None, alg="HS256", provider=BaseProvider):
        app = self
        self.clients = clients or {
            "cb": Client("cb", "secret-b", "client_secret_basic", ["https://cb.example/cb"]),
            "cp": Client("cp", "secret-p", "client_secret_post", ["https://cp.example/cb"]),
            "pub": Client("pub", None, "none", ["https://pub.example/cb"]),
        }
        self.users = {"u1": User("u1"), "u2": User("u2")}
        self.codes, self.refresh, self.revoked, self.issued, self.calls = {}, {}, [], [], []
        self.delay = False
        self.key = key or JsonWebKey({"kty": "oct", "k": base64.urlsafe_b64encode(b"k" * 40).decode().rstrip("="), "kid": "k1"})
        self.alg = alg

        async def pause(name):
            app.calls.append(name)
            if app.delay:
                await asyncio.sleep(0)

        class Adapter(BaseAdapter):
            async def find_user(self, user_id):
                await pause("find_user")
                return app.users.get(user_id)

            async def find_client(self, client_id):
                await pause("find_client")
                return app.clients.get(client_id)

            async def save_authorization_code(self, code, data, client, user):
                await pause("save_authorization_code")
                app.codes[code] = {"client": client.get_client_id(), "user": user.get_user_id(), "redirect_uri": data["redirect_uri"],
                                   "scopes": list(data["scopes"]), "challenge": data["code_challenge"],
                                   "method": data["code_challenge_method"], "nonce": data.get("nonce"),
                                   "expires": datetime.utcnow() + timedelta(minutes=10)}

            async def get_authorization_code(self, code):
                await pause("get_authorization_code")
                return Code(app.codes[code]) if code in app.codes else None

            async def delete_authorization_code(self, code):
                await pause("delete_authorization_code")
                app.codes.pop(code, None)

            def token(self, kind, client, owner, scopes):
                t = f"{kind}-{len(app.issued)}"
                app.issued.append((t, client, owner, list(scopes)))
                return t

            async def create_access_token(self, client, resource_owner, scopes):
                await pause("create_access_token")
                return self.token("at", client, resource_owner, scopes)

            async def create_refresh_token(self, client, user, scopes):
                await pause("create_refresh_token")
                t = self.token("rt", client, user, scopes)
                app.refresh[t] = {"token": t, "client": client.get_client_id(), "user": user.get_user_id(), "scopes": list(scopes),
                                  "expires": datetime.utcnow() + timedelta(days=1)}
                return t

            async def get_refresh_token(self, refresh_token):
                await pause("get_refresh_token")
                return Refresh(app.refresh[refresh_token]) if refresh_token in app.refresh else None

            async def revoke_token(self, client, token, token_type_hint=None):
                await pause("revoke_token")
                app.revoked.append((client.get_client_id(), token, token_type_hint))
                if token in app.refresh and app.refresh[token]["client"] == client.get_client_id():
                    del app.refresh[token]

            async def get_userinfo(self, user, scopes):
                await pause("get_userinfo")
                return {"sub": user.get_user_id()}

            async def get_key_info(self):
                await pause("get_key_info")
                return {"key": app.key, "alg": app.alg}

        class Provider(provider):
            async def create_request(self, request): return request
            async def create_response(self, response): return response

        cls = Provider if provider is BaseProvider else provider
        self.provider = cls("https://as.example", adapter=Adapter, grants=list(grants), scopes=[Scope(s) for s in scopes],
                            keyset=JsonWebKeySet([self.key]) if self.key.data.get("kid") else None,
                            error_url="https://as.example/error")
        for grant, hook in hooks:
            self.provider.add_hook(grant, hook)

    # requests
    def auth_request(self, client="cb", user="u1", **over):
        p = {"response_type": "code", "client_id": client, "redirect_uri": self.clients[client].uris[0] if client in self.clients else "x",
             "code_challenge": CHALLENGE, "code_challenge_method": "S256", "scope": "profile", "state": "st"}
        p.update(over)
        p = {k: v for k, v in p.items() if v is not None}
        return Request(method="GET", url="https://as.example/authorize?" + urlencode(p), headers={}, body=b"",
                       user=self.users.get(user) if user else None)

    def post(self, path, form, client=None, headers=None):
        form = dict(form)
        headers = dict(headers or {})
        if client:
            c = self.clients[client]
            if c.method == "client_secret_basic":
                headers["Authorization"] = basic(c.id, c.secret)
            elif c.method == "client_secret_post":
                form.update(client_id=c.id, client_secret=c.secret)
            else:
                form.update(client_id=c.id)
        headers.setdefault("Content-Type", "application/x-www-form-urlencoded")
        return Request(method="POST", url="https://as.example" + path, headers=headers, body=urlencode(form).encode(), user=None)

    def authorize(self, client="cb", user="u1", **over):
        return asyncio.run(self.provider.authorize(self.auth_request(client, user, **over)))

    def code(self, client="cb", user="u1", **over):
        return query(location(self.authorize(client, user, **over)))["code"]

    def code_form(self, code, client="cb", **over):
        p = {"grant_type": "authorization_code", "code": code, "redirect_uri": self.clients[client].uris[0], "code_verifier": VERIFIER}
        p.update(over)
        return {k: v for k, v in p.items() if v is not None}

    def token(self, form, client="cb", headers=None):
        return asyncio.run(self.provider.token(self.post("/token", form, client, headers)))

    def revoke(self, form, client="cb", headers=None):
        return asyncio.run(self.provider.revoke(self.post("/revoke", form, client, headers)))

    def redeem(self, code, client="cb", **over):
        return self.token(self.code_form(code, client, **over), client)


def basic(cid, secret):
    return "Basic " + base64.b64encode(f"{cid}:{secret}".encode()).decode()


def location(resp):
    return next((v for k, v in resp.headers.items() if k.lower() == "location"), None)


def query(url):
    return dict(parse_qsl(urlsplit(url).query, keep_blank_values=True))


def body(resp):
    return json.loads(resp.body)


def granted(resp):
    return "access_token" in body(resp)


def expect(cond, text):
    if not cond:
        print("FAILED:", text)
        sys.exit(1)
