"""Planted bugs, part 4: near misses, memories, sizes. Most were missed by the checks when first tried."""
SEEDS = []
HARNESS = "from harness import *\n\n"


def seed(id, needs, breaks, edits, demo, head=HARNESS):
    SEEDS.append({"SEED": id, "PROPERTY": id[:3], "NEEDS": needs, "BREAKS": breaks, "EDITS": edits, "DEMO": head + demo.lstrip()})


d = {}
exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__import__("sys").argv[1])), "batch2.py")).read(), d)
JHEAD = d["HEAD"]

AC = "oauth2/grants/authorization_code.py"
RT = "oauth2/grants/refresh_token.py"
GB = "oauth2/grants/base.py"
AE = "oauth2/endpoints/authorization.py"
TE = "oauth2/endpoints/token.py"
CA = "oauth2/authentication/client_authentication.py"
POST = "oauth2/authentication/methods/client_secret_post.py"
JWS, JWT, JWK, WT = "jose/jws.py", "jose/jwt.py", "jose/jwk.py", "webtools.py"

seed("C02-redirect-slash", "a registered redirect URI and the one of the token request differing in a final slash",
     "a final slash is ignored when the redirect URI is compared with the one of the code",
     [(AC, '''data["redirect_uri"] != code.get_redirect_uri()''', '''data["redirect_uri"].rstrip("/") != code.get_redirect_uri().rstrip("/")''')], '''
app = App()
app.clients["cb"].uris.append("https://cb.example/cb/")
expect(not granted(app.redeem(app.code(), redirect_uri="https://cb.example/cb/")), "redeemed with another redirect URI")
''')

seed("C02-client-case", "two clients whose identifiers differ in case only",
     "client identifiers are compared without case when a code is redeemed",
     [(AC, '''client.get_client_id() != code.get_client_id()''', '''client.get_client_id().lower() != code.get_client_id().lower()''')], '''
app = App()
app.clients["CB"] = Client("CB", "other", "client_secret_basic", ["https://cb.example/cb"])
expect(not granted(app.redeem(app.code("cb"), "CB")), "another client redeemed the code")
''')

seed("C03-challenge-padding", "a challenge sent with base64 padding",
     "padding of the stored challenge is ignored",
     [(AC, '''    return challenge == hashed_verifier''', '''    return challenge.rstrip("=") == hashed_verifier''')], '''
app = App()
expect(not granted(app.redeem(app.code(code_challenge=CHALLENGE + "="))), "a verifier that does not give the challenge was accepted")
''')

seed("C04-loopback-port", "an http redirect URI of a loopback address with another port",
     "the port of loopback addresses is not compared",
     [(AE, '''        if redirect_uri not in client.get_redirect_uris():''', '''        import re

        def loopback(uri):
            return re.sub("^http://(127[.]0[.]0[.]1|localhost):[0-9]+/", "http://loopback/", uri)

        if loopback(redirect_uri) not in map(loopback, client.get_redirect_uris()):''')], '''
app = App()
app.clients["cb"].uris.append("http://localhost:8000/cb")
loc = location(app.authorize(redirect_uri="http://localhost:9000/cb"))
expect("code" not in query(loc) and not loc.startswith("http://localhost:9000"), "redirected to an unregistered URI: " + loc)
''')

seed("C04-fragment-ignored", "a redirect URI with a fragment after a registered one",
     "the fragment is dropped before the redirect URI is compared",
     [(AE, '''        if redirect_uri not in client.get_redirect_uris():''', '''        if redirect_uri.split("#", 1)[0] not in client.get_redirect_uris():''')], '''
app = App()
loc = location(app.authorize(redirect_uri="https://cb.example/cb#x"))
expect(not loc.startswith("https://cb.example/cb"), "redirected to an unregistered URI: " + loc)
''')

seed("C05-state-long", "a state of more than 1024 characters",
     "long states are cut",
     [(AC, '''"state": data.get("state")}''', '''"state": data.get("state") and data["state"][:1024]}''')], '''
app = App()
for n in (1, 100, 1024, 1025, 3000):
    expect(query(location(app.authorize(state="x" * n)))["state"] == "x" * n, f"a state of {n} characters was changed")
''')

seed("C07-bcrypt-length", "two secrets that agree in their first 72 characters",
     "only the first 72 characters of a secret in the form are compared",
     [(POST, '''client.get_client_secret() != client_secret''', '''client.get_client_secret()[:72] != client_secret[:72]''')], '''
app = App()
app.clients["cp"].secret = "s" * 80
form = {"grant_type": "client_credentials", "client_id": "cp", "client_secret": "s" * 79 + "x"}
expect(not granted(app.token(form, None)), "a wrong secret was accepted")
''')

seed("C08-grant-substring", "a client with a grant whose name contains that of another",
     "the grant is looked for inside the names of the client's grants",
     [(TE, '''if grant.__grant_type__ not in client.get_grant_types():''', '''if grant.__grant_type__ not in " ".join(client.get_grant_types()):''')], '''
app = App()
app.clients["cb"].grants[:] = ["urn:example:client_credentials"]
expect(not granted(app.token({"grant_type": "client_credentials"})), "a grant was used that the client does not have")
''')

seed("C16-use-case", "a key whose use is SIG or Sig",
     "the use of a key is compared without case",
     [(JWS, '''key.data.get("use") != "sig"''', '''key.data.get("use").lower() != "sig"''')], '''
k = JsonWebKey({"kty": "oct", "k": b64(b"k" * 64), "use": "SIG"})
expect(raises(lambda: JsonWebSignature(b"x", {"alg": "HS256"}).serialize(k)), "a key of another use signed")
''', JHEAD)

seed("C16-kid-prefix", "a token whose key identifier is the beginning of the key's",
     "the key's identifier only has to start with the token's",
     [(JWS, '''key.data.get("kid") != header.get("kid")''', '''not str(key.data.get("kid")).startswith(header.get("kid"))''')], '''
k = JsonWebKey({"kty": "oct", "k": b64(b"k" * 64), "kid": "2024-01"})
expect(raises(lambda: JsonWebSignature(b"x", {"alg": "HS256", "kid": "2024"}).serialize(k)), "a key of another identifier signed")
''', JHEAD)

seed("C21-text-equality", "an expected value that only looks the same as text",
     "claims are compared with the expected value as text",
     [(JWT, '''value != option.get("value")''', '''str(value) != str(option.get("value"))''')], '''
expect(raises(JsonWebTokenClaims, {"level": "1"}, {"level": {"value": 1}}), "another value was accepted")
''', JHEAD)

seed("C24-load-skips", "a key set with a key of an unknown type among others",
     "keys that cannot be loaded are left out silently",
     [(JWK, '''return cls([JsonWebKey(key) for key in keyset["keys"]])''', '''return cls(
            [JsonWebKey(key) for key in keyset["keys"] if key.get("kty") in JsonWebKey.__algorithms__]
        )''')], '''
good = {"kty": "oct", "k": b64(b"k" * 64), "kid": "a"}
expect(raises(JsonWebKeySet.load, {"keys": [good, {"kty": "OKP", "kid": "b"}]}), "a set with a bad key was loaded")
''', JHEAD)

seed("C26-crit-last", "several critical parameters of which not the first is unknown",
     "only the first critical parameter is examined",
     [(JWS, '''            for item in crit:
''', '''            for item in crit[:1]:
''')], '''
expect(raises(JsonWebSignatureHeader, {"alg": "HS256", "kid": "x", "crit": ["kid", "exp"], "exp": 1}), "an unknown critical parameter was accepted")
''', JHEAD)

seed("C29-semicolon", "a value that contains a semicolon",
     "semicolons separate parameters, too",
     [(WT, '''dict(parse_qsl(query_string))''', '''dict(parse_qsl(query_string.replace(";", "&")))''')], '''
r = Request(method="POST", url="https://as.example/token", headers={}, body=b"a=b;c=d&e=f", user=None)
expect(r.form() == {"a": "b;c=d", "e": "f"}, "a value was split: " + repr(r.form()))
''')

seed("C28-spare-code", "two authorization requests while the storage is slow or failing",
     "a code is kept for the next request until the storage has taken it",
     [(AC, '''        code = secret_token(64)
        await self.adapter.save_authorization_code(code, data, client, user)
''', '''        code = self.__dict__.setdefault("_spare", secret_token(64))
        await self.adapter.save_authorization_code(code, data, client, user)
        self.__dict__.pop("_spare", None)
''')], '''
app = App()
app.delay = True


async def both():
    return await asyncio.gather(app.provider.authorize(app.auth_request(user="u1")), app.provider.authorize(app.auth_request(user="u2")))

a, b = asyncio.run(both())
expect(query(location(a))["code"] != query(location(b))["code"], "two requests got the same code")
''')

seed("C28-known-part", "nothing but looking at the code",
     "a quarter of the code is the beginning of the challenge",
     [(AC, '''        code = secret_token(64)
''', '''        code = secret_token(48) + data["code_challenge"][:16]
''')], '''
app = App()
expect(CHALLENGE[:16] not in app.code(), "a part of the code is known")
''')

seed("C29-body-trimmed", "a form whose last value ends in a space or whose body ends in white space",
     "the body of the request is trimmed",
     [("oauth2/providers/starlette.py", '''body=await request.body()''', '''body=(await request.body()).strip()''')], '''
from starlette.requests import Request as SRequest
from psion.oauth2.providers.starlette import StarletteProvider

app = App(provider=StarletteProvider)
sent = b"a=1&b=2 "


async def receive():
    return {"type": "http.request", "body": sent, "more_body": False}

scope = {"type": "http", "method": "POST", "path": "/", "query_string": b"", "server": ("h", 80), "scheme": "http", "user": None,
         "headers": [(b"content-type", b"application/x-www-form-urlencoded")]}
r = asyncio.run(app.provider.create_request(SRequest(scope, receive)))
expect(r.form()["b"] == "2 ", "the form was changed: " + repr(r.form()))
''')

seed("C34-verified-tokens", "a token verified first with its key and then with another key of the same identifier",
     "tokens that were verified once are not verified again",
     [(JWS, '''            jws_header.algorithm.verify(signature, b".".join([header, payload]), key)''', '''            if (token, key.data.get("kid")) not in cls._verified:
                jws_header.algorithm.verify(
                    signature, b".".join([header, payload]), key
                )
                cls._verified.add((token, key.data.get("kid")))'''), (JWS, '''class JsonWebSignature:
''', '''class JsonWebSignature:
    _verified: set = set()
''')], '''
t = JsonWebSignature(b"x", {"alg": "HS256"}).serialize(OCT)
other = JsonWebKey({"kty": "oct", "k": b64(b"o" * 64)})
JsonWebSignature.deserialize(t, OCT)
expect(raises(JsonWebSignature.deserialize, t, other), "a token was accepted with another key")
''', JHEAD)

seed("C34-sorted-values", "options given as a shared list, used again afterwards",
     "the caller's list of expected values is sorted in place",
     [(JWT, '''                for expected_value in option["values"]:''', '''                option["values"].sort(key=str)
                for expected_value in option["values"]:''')], '''
options = {"sub": {"values": ["b", "a"]}}
JsonWebTokenClaims({"sub": "a"}, options)
expect(options == {"sub": {"values": ["b", "a"]}}, "the caller's options were changed")
''', JHEAD)

seed("C35-expired-owner", "an expired refresh token",
     "the error names the user the token belongs to",
     [(RT, '''description="Refresh Token expired."''', '''description=f"Refresh Token of {token.get_user_id()} expired."''')], '''
app = App()
app.users["somebody@example.com"] = User("somebody@example.com")
app.refresh["r"] = {"token": "r", "client": "cb", "user": "somebody@example.com", "scopes": ["profile"], "expires": datetime(2000, 1, 1)}
r = app.token({"grant_type": "refresh_token", "refresh_token": "r"})
expect(b"somebody" not in r.body, "the error names the owner")
''')

seed("C37-client-memory", "a client whose secret or grants change between two requests",
     "registrations are remembered by the client authentication",
     [(CA, '''        self.auth_methods: list[BaseAuthentication] = [
''', '''        cache = {}

        async def cached(client_id, find=find_client):
            if client_id not in cache:
                cache[client_id] = await find(client_id)
            return cache[client_id]

        find_client = cached
        self.auth_methods: list[BaseAuthentication] = [
''')], '''
app = App()
form = {"grant_type": "client_credentials"}
first, old = app.post("/token", form, "cb"), app.post("/token", form, "cb")
expect(granted(asyncio.run(app.provider.token(first))), "refused at first")
app.clients["cb"] = Client("cb", "rotated", "client_secret_basic", ["https://cb.example/cb"])
expect(not granted(asyncio.run(app.provider.token(old))), "the old secret still works")
''')

seed("C37-user-memory", "a user removed between two redemptions",
     "users are remembered by the authorization code grant",
     [(AC, '''            user = await self.adapter.find_user(code.get_user_id())
''', '''            cache = self.__dict__.setdefault("_users", {})
            user = cache.get(code.get_user_id()) or await self.adapter.find_user(
                code.get_user_id()
            )
            cache[code.get_user_id()] = user
''')], '''
app = App()
first, second = app.code(), app.code()
expect(granted(app.redeem(first)), "refused at first")
del app.users["u1"]
expect(not granted(app.redeem(second)), "a removed user still gets tokens")
''')

seed("C38-parameter-count", "a token request with more than 24 parameters",
     "requests with many unknown parameters are refused",
     [(TE, '''            if not data:
''', '''            if not data or len(data) > 24:
''')], '''
app = App()
extra = {f"x{i}": "y" for i in range(40)}
expect(granted(app.token({"grant_type": "client_credentials", **extra})), "unknown parameters changed the answer")
''')

seed("C38-underscore-alias", "an unknown parameter whose name is that of a real one with a hyphen",
     "hyphens in the names of parameters are read as underscores",
     [(WT, '''dict(parse_qsl(query_string))''', '''{k.replace("-", "_"): v for k, v in parse_qsl(query_string)}''')], '''
app = App()
r = app.token({"grant_type": "client_credentials", "scope": "profile", "sco-pe": "x", "grant-type": "password"})
expect(granted(r), "an unknown parameter changed the answer")
''')
