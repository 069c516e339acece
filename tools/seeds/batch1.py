"""Planted bugs, part 1: psion.oauth2 and psion.oidc."""
SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append({"SEED": id, "PROPERTY": id[:3], "NEEDS": needs, "BREAKS": breaks, "EDITS": edits, "DEMO": "from harness import *\n\n" + demo.lstrip()})


AC = "oauth2/grants/authorization_code.py"
RT = "oauth2/grants/refresh_token.py"
AE = "oauth2/endpoints/authorization.py"

seed("C01-keep-on-bad-client", "a first redemption by another client, then one by the right client",
     "a code presented by a client it was not issued to is no longer deleted, so it can be redeemed afterwards",
     [(AC, '''            self._validate_authorization_code(data, code, client)

            user''', '''            if client.get_client_id() != code.get_client_id():
                data = {}
                raise InvalidGrant(description="Mismatching Client ID.")

            self._validate_authorization_code(data, code, client)

            user''')], '''
app = App()
code = app.code("cb")
r = app.token(dict(app.code_form(code, "cb")), "cp")
expect(not granted(r), "another client got tokens")
expect(not granted(app.redeem(code, "cb")), "the code was granted after it had been presented")
''')

seed("C02-registration-check-order", "the client drops the redirect URI from its registration between authorization and redemption",
     "a redirect URI that is no longer registered is still honoured at the token endpoint",
     [(AC, '''        if data["redirect_uri"] not in client.get_redirect_uris():
            raise InvalidGrant(description="Invalid Redirect URI.")
''', '''        if data["redirect_uri"] not in [*client.get_redirect_uris(), code.get_redirect_uri()]:
            raise InvalidGrant(description="Invalid Redirect URI.")
''')], '''
app = App()
code = app.code("cb")
form = app.code_form(code, "cb")
app.clients["cb"].uris[:] = ["https://cb.example/other"]
expect(not granted(app.token(form, "cb")), "the removed redirect URI was honoured")
''')

seed("C02-user-from-client-cache", "a code whose user was deleted before redemption",
     "tokens are issued for a deleted user, with the client as resource owner",
     [(AC, '''            if not user:
                raise InvalidRequest(description="No user found for this code.")
''', '''            user = user or client
''')], '''
app = App()
app.clients["cb"].grants[:] = ["authorization_code"]
code = app.code("cb")
app.users.clear()
expect(not granted(app.redeem(code)), "tokens were issued for a missing user")
''')

seed("C03-verifier-prefix", "a code verifier longer than the challenge method expects: plain challenge that is a prefix of the verifier",
     "plain verifiers are cut to the challenge's length, so an extended verifier is accepted",
     [(AC, '''    return challenge == verifier
''', '''    return challenge == verifier[: len(challenge)]
''')], '''
app = App()
code = app.code(code_challenge="c" * 43, code_challenge_method="plain")
expect(not granted(app.redeem(code, code_verifier="c" * 44)), "a wrong verifier was accepted")
''')

seed("C03-max-length", "a code challenge of exactly 129 characters",
     "challenges longer than 128 characters are accepted",
     [(AC, '''len(code_challenge) > 128''', '''len(code_challenge) > 129''')], '''
app = App()
r = app.authorize(code_challenge="c" * 129, code_challenge_method="plain")
expect("code=" not in location(r), "a challenge of 129 characters got a code")
''')

seed("C04-case-host", "a redirect URI that differs from the registered one in letter case of its path",
     "redirect URIs are compared without regard to letter case",
     [(AE, '''        if redirect_uri not in client.get_redirect_uris():
''', '''        if redirect_uri.lower() not in [
            uri.lower() for uri in client.get_redirect_uris()
        ]:
''')], '''
app = App()
r = app.authorize(redirect_uri="https://cb.example/CB")
expect(location(r).startswith("https://as.example/error"), "redirected to " + location(r))
''')

seed("C05-state-lost-on-scope", "an authorization request with a state for a supported scope that the client is not allowed",
     "the error redirect loses the state",
     [("oauth2/grants/base.py", '''                description="This client is not authorized to request this scope.",
                state=state,
''', '''                description="This client is not authorized to request this scope.",
''')], '''
app = App()
app.clients["cb"].scopes[:] = ["profile"]
q = query(location(app.authorize(scope="email", state="s t")))
expect(q.get("error") == "invalid_scope" and q.get("state") == "s t", f"got {q}")
''')

seed("C05-unquoted-plus", "a state that contains a plus sign or a space",
     "the Location header is re-quoted so that + becomes part of the value",
     [("oauth2/models/http.py", '''safe=":/%#?&=@[]!$&'()*+,;"''', '''safe=":/%#?&=@[]!$&'()*,;"''')], '''
app = App()
q = query(location(app.authorize(state="a b")))
expect(q.get("state") == "a b", f"state came back as {q.get('state')!r}")
''')

seed("C06-refresh-any-order", "a refresh asking for several scopes of which only one belongs to the token",
     "a refresh that names at least one scope of the token may name others as well",
     [(RT, '''        if any(scope not in token.get_scopes() for scope in scopes):
            raise InvalidScope(description="Invalid broader scope.")

        return list(set(token.get_scopes()).intersection(scopes))
''', '''        if all(scope not in token.get_scopes() for scope in scopes):
            raise InvalidScope(description="Invalid broader scope.")

        return list(scopes)
''')], '''
app = App()
t = body(app.redeem(app.code(scope="profile")))
r = app.token({"grant_type": "refresh_token", "refresh_token": t["refresh_token"], "scope": "profile email"})
expect(not granted(r), "the refreshed token got a scope the refresh token does not have")
''')

seed("C06-cc-scope-silent", "client credentials without a requested scope",
     "the response hides the scopes that were issued although none were asked for",
     [("oauth2/grants/client_credentials.py", '''            scopes if scopes != data["scopes"] else None,
''', '''            scopes if data["scopes"] and scopes != data["scopes"] else None,
''')], '''
app = App()
b = body(app.token({"grant_type": "client_credentials"}, "cb"))
expect(sorted(b.get("scope", "").split()) == sorted(app.clients["cb"].scopes), f"scope is {b.get('scope')!r}")
''')

seed("C07-post-in-query", "client credentials in the query string of the token request",
     "a client_secret_post client may pass its secret in the query string",
     [("oauth2/authentication/methods/client_secret_post.py", '''        body = request.form()
''', '''        body = request.data
''')], '''
app = App()
c = app.clients["cp"]
req = Request(method="POST", url="https://as.example/token?" + urlencode({"client_id": c.id, "client_secret": c.secret}), headers={},
              body=urlencode({"grant_type": "client_credentials"}).encode(), user=None)
expect(not granted(asyncio.run(app.provider.token(req))), "a secret in the query string was accepted")
''')

seed("C07-public-with-empty-secret", "a public client that sends an empty Basic password",
     "the none method accepts confidential clients whose registered method is client_secret_post",
     [("oauth2/authentication/methods/none.py", '''        if client.get_client_secret() != client_secret:
            raise InvalidClient("Mismatching Client Secret.")

        if client.get_token_endpoint_auth_method() != self.__method__:
''', '''        if client.get_token_endpoint_auth_method() == "client_secret_basic":
''')], '''
app = App()
code = app.code("cp")
r = asyncio.run(app.provider.token(app.post("/token", dict(app.code_form(code, "cp"), client_id="cp"))))
expect(not granted(r), "a confidential client was served without its secret")
''')

seed("C08-refresh-for-all", "a client that is not registered for the refresh_token grant redeems a code",
     "refresh tokens are issued because the provider supports the grant, whether or not the client does",
     [(AC, '''if "refresh_token" in client.get_grant_types()''', '''if {"refresh_token", self.__grant_type__} & set(client.get_grant_types())''')], '''
app = App()
app.clients["cb"].grants[:] = ["authorization_code"]
expect("refresh_token" not in body(app.redeem(app.code())), "a refresh token was issued")
''')

seed("C08-first-grant-wins", "a provider where another grant precedes the requested one and a client registered only for that",
     "the client's permission is checked against any grant of the provider it may use",
     [("oauth2/endpoints/token.py", '''            if grant.__grant_type__ not in client.get_grant_types():
''', '''            if not any(g.__grant_type__ in client.get_grant_types() for g in self.grants):
''')], '''
app = App()
app.clients["cb"].grants[:] = ["authorization_code"]
expect(not granted(app.token({"grant_type": "client_credentials"})), "a grant the client is not registered for was used")
''')

seed("C09-other-client-same-user", "a refresh token presented by another client",
     "refresh tokens are accepted from any client that shares a redirect URI host check",
     [(RT, '''        if token.get_client_id() != client.get_client_id():
            raise InvalidClient
''', '''        if token.get_client_id() not in (client.get_client_id(), None) and (
            client.get_client_secret() is not None
        ):
            raise InvalidClient
''')], '''
app = App()
rt = body(app.redeem(app.code("cb")))["refresh_token"]
expect(not granted(app.token({"grant_type": "refresh_token", "refresh_token": rt}, "pub")), "another client used the refresh token")
''')

seed("C10-bad-utf8-body", "a token request whose body is not UTF-8",
     "undecodable bodies raise out of the request",
     [("webtools.py", '''        except (TypeError, UnicodeDecodeError):
            return base64url_encode(data).decode(encoding)
''', '''        except TypeError:
            return base64url_encode(data).decode(encoding)
''')], '''
app = App()
try:
    req = Request(method="POST", url="https://as.example/token", headers={}, body=b"grant_type=\\xff\\xfe", user=None)
    r = asyncio.run(app.provider.token(req))
    expect(r.status_code == 400, f"status {r.status_code}")
except Exception as exc:
    expect(False, f"raised {exc!r}")
''')

seed("C11-hint-retry", "a revocation request without a hint",
     "without a hint the storage is asked once per token type instead of once",
     [("oauth2/endpoints/revocation.py", '''            await self.adapter.revoke_token(client, token, token_type_hint)
''', '''            for hint in [token_type_hint] if token_type_hint else self.__supported_tokens__:
                await self.adapter.revoke_token(client, token, hint)
''')], '''
app = App()
app.revoke({"token": "x"})
expect(app.revoked == [("cb", "x", None)], f"revoked {app.revoked}")
''')

seed("C11-trimmed-token", "a token that ends in a space-like character or is quoted",
     "the token is normalised before it is revoked, so another token is named",
     [("oauth2/endpoints/revocation.py", '''            token: str = data.get("token")
''', '''            token: str = (data.get("token") or "").strip()
''')], '''
app = App()
app.revoke({"token": " tok "})
expect(app.revoked == [("cb", " tok ", None)], f"revoked {app.revoked}")
''')

seed("C12-hook-first-answer", "two hooks on the same checkpoint of one provider, of which the first answers",
     "only the first hook that returns something runs",
     [("oauth2/grants/base.py", '''                    yield await method(*args, **kwargs)
''', '''                    result = await method(*args, **kwargs)
                    yield result

                    if result:
                        return
''')], '''
seen = []


def make(n):
    class Hook:
        def __init__(self, adapter, config): pass
        async def token_response(self, token, data, client, user):
            seen.append(n)
            return {f"x{n}": n}
    return Hook


app = App(hooks=[(AuthorizationCodeGrant, make(1)), (AuthorizationCodeGrant, make(2))])
app.redeem(app.code())
expect(sorted(seen) == [1, 2], f"ran {seen}")
''')

seed("C12-hook-all-grants", "a hook registered for the authorization code grant in a provider with a subclass of that grant as well",
     "hooks registered for one grant are added to every grant of the provider that has the same checkpoints",
     [("oauth2/providers/base.py", '''            if not isinstance(grant, grant_cls):
                continue
''', '''            if grant.__response_type__ != grant_cls.__response_type__:
                continue
''')], '''
seen = []


class Hook:
    def __init__(self, adapter, config): pass
    async def token_response(self, token, data, client, user):
        seen.append(1)


class Other(AuthorizationCodeGrant):
    __grant_type__ = "other_code"


app = App(grants=(Other, RefreshTokenGrant, AuthorizationCodeGrant), hooks=[(Other, Hook)])
app.clients["cb"].grants.append("other_code")
app.redeem(app.code())
expect(seen == [], "the hook ran in a grant it was not registered for")
''')

seed("C13-client-on-endpoint", "two concurrent token requests of different clients",
     "the authenticated client is kept on the endpoint, so a concurrent request replaces it",
     [("oauth2/endpoints/token.py", '''            client = await self.authenticate(request, grant.__authentication_methods__)

            if grant.__grant_type__ not in client.get_grant_types():
                raise UnauthorizedClient

            response = await grant.token(data, client)
''', '''            grant.client = await self.authenticate(
                request, grant.__authentication_methods__
            )

            if grant.__grant_type__ not in grant.client.get_grant_types():
                raise UnauthorizedClient

            response = await grant.token(data, grant.client)
'''), (RT, '''        access_token = await self.adapter.create_access_token(client, user, scopes)
''', '''        client = getattr(self, "client", client)
        access_token = await self.adapter.create_access_token(client, user, scopes)
''')], '''
app = App()
rts = {c: body(app.redeem(app.code(c), c))["refresh_token"] for c in ("cb", "cp")}
app.delay = True


async def one(c, n):
    for _ in range(n):
        await asyncio.sleep(0)
    return await app.provider.token(app.post("/token", {"grant_type": "refresh_token", "refresh_token": rts[c]}, c))


async def both(n):
    return await asyncio.gather(one("cb", 0), one("cp", n))


for n in range(8):
    del app.issued[:]
    asyncio.run(both(n))
    owners = sorted(c.get_client_id() for t, c, o, s in app.issued if t.startswith("at"))
    expect(owners == ["cb", "cp"], f"tokens were created for {owners}")
''')

seed("C13-shared-error-headers", "a failed Basic authentication followed by any other failed request",
     "headers of one error response stay in later ones",
     [("oauth2/endpoints/token.py", '''            headers = exc.headers
            headers.update(self._headers)
''', '''            headers = self._headers
            headers.update(exc.headers)
''')], '''
app = App()
app.token({"grant_type": "client_credentials"}, None, {"Authorization": basic("cb", "wrong")})
r = app.token({"grant_type": "nope"}, "cb")
expect(not any(k.lower() == "www-authenticate" for k in r.headers), f"headers {dict(r.headers)}")
''')

seed("C14-lifetime-mixup", "an access token lifetime that differs from the ID token lifetime",
     "the ID token expires with the access token",
     [("oidc/flows/authorization_code.py", '''self.config.id_token_lifespan''', '''min(self.config.id_token_lifespan, 10 * self.config.token_lifespan)''')], '''
from psion.oidc import AuthorizationCodeFlow
from psion.jose import JsonWebToken
app = App(hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)])
app.provider.config.token_lifespan = 60
b = body(app.redeem(app.code(scope="openid")))
c = JsonWebToken.decode(b["id_token"], app.key).claims
expect(c["exp"] - c["iat"] == app.provider.config.id_token_lifespan, f"lifetime {c['exp'] - c['iat']}")
''')

seed("C14-nonce-on-hook", "two authorization requests with different nonces before the first code is redeemed",
     "the nonce is remembered on the hook, so the last one wins",
     [("oidc/flows/authorization_code.py", '''            return {"nonce": nonce}
''', '''            AuthorizationCodeFlow.nonce = nonce
            return {"nonce": nonce}
'''), ("oidc/flows/authorization_code.py", '''        key_info = await self.adapter.get_key_info()
''', '''        nonce = nonce and getattr(self, "nonce", nonce)
        key_info = await self.adapter.get_key_info()
''')], '''
from psion.oidc import AuthorizationCodeFlow
from psion.jose import JsonWebToken
app = App(hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)])
c1 = app.code(scope="openid", nonce="n1")
c2 = app.code(scope="openid", nonce="n2")
c = JsonWebToken.decode(body(app.redeem(c1))["id_token"], app.key).claims
expect(c.get("nonce") == "n1", f"nonce {c.get('nonce')}")
''')

seed("C14-half-hash-256", "an ID token signed with a SHA-384 or SHA-512 algorithm",
     "at_hash always keeps 16 octets, half of SHA-256",
     [("webtools.py", '''    half_length = int(len(hash_bytes) / 2)
''', '''    half_length = min(int(len(hash_bytes) / 2), 16)
''')], '''
from psion.oidc import AuthorizationCodeFlow
from psion.jose import JsonWebToken
app = App(hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)], alg="HS512")
b = body(app.redeem(app.code(scope="openid")))
c = JsonWebToken.decode(b["id_token"], app.key).claims
want = base64.urlsafe_b64encode(hashlib.sha512(b["access_token"].encode()).digest()[:32]).decode().rstrip("=")
expect(c["at_hash"] == want, f"at_hash {c['at_hash']}")
''')

seed("C28-pseudo-random", "two processes whose pseudo-random generator has the same state",
     "authorization codes come from the seedable generator of the random module",
     [("webtools.py", '''import secrets
import string''', '''import random as secrets
import string''')], '''
import random
app = App()
random.seed(7)
a = app.code()
random.seed(7)
b = app.code()
expect(a != b, "the same seed gave the same code")
''')

seed("C29-headers-multi", "a response with a header whose name has no lower-case form in the framework, such as a redirect",
     "bodies of responses with an empty body get the text None",
     [("oauth2/providers/starlette.py", '''headers=dict(request.headers)''', '''headers=dict(request.headers.items()[:4])''')], '''
from starlette.requests import Request as SR
from psion.oauth2.providers import StarletteProvider
app = App(provider=StarletteProvider)


async def receive():
    return {"type": "http.request", "body": b"", "more_body": False}


hs = [(b"host", b"as.example"), (b"a", b"1"), (b"b", b"2"), (b"c", b"3"), (b"authorization", b"Basic eA==")]
scope = {"type": "http", "method": "POST", "path": "/token", "query_string": b"", "headers": hs, "scheme": "https", "server": ("as.example", 443), "user": None}
req = asyncio.run(app.provider.create_request(SR(scope, receive)))
expect(req.headers.get("authorization") == "Basic eA==", f"headers {req.headers}")
''')

seed("C29-query-over-form", "a parameter that is both in the query and in the form",
     "the query wins over the form",
     [("oauth2/models/http.py", '''        self.data = copy.deepcopy(self.query)
        self.data.update(self.form())
''', '''        self.data = self.form()
        self.data.update(copy.deepcopy(self.query))
''')], '''
r = Request(method="POST", url="https://as.example/token?a=query", headers={}, body=b"a=form", user=None)
expect(r.data["a"] == "form", f"data {r.data}")
''')

seed("C30-nonce-when-present", "an ID token without nonce although one is expected",
     "a missing nonce is not compared with the expected one",
     [("oidc/claims.py", '''            if nonce != claims.get("nonce"):
''', '''            if nonce != claims.get("nonce", nonce):
''')], '''
from psion.oidc import IDToken
try:
    IDToken({"iss": "i"}, {"nonce": "n"})
except Exception:
    pass
else:
    expect(False, "a missing nonce was accepted")
''')

seed("C31-scope-list", "a token response with scopes",
     "an error response drops the cache headers when the error carries headers of its own",
     [("oauth2/endpoints/token.py", '''            headers.update(self._headers)
''', '''            headers = headers or dict(self._headers)
''')], '''
app = App()
r = app.token({"grant_type": "client_credentials"}, None, {"Authorization": basic("cb", "wrong")})
h = {k.lower(): v for k, v in r.headers.items()}
expect(h.get("cache-control") == "no-store", f"headers {h}")
''')

seed("C32-last-colon", "a client secret that contains a colon",
     "Basic credentials are split at the last colon",
     [("webtools.py", '''credentials.split(":", 1)''', '''credentials.rsplit(":", 1)''')], '''
from psion.webtools import get_basic_authorization
got = get_basic_authorization({"authorization": basic("id", "a:b")})
expect(tuple(got) == ("id", "a:b"), f"got {got}")
''')
