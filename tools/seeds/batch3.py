"""Planted bugs, part 3: consent, independence, secrecy, challenges."""
SEEDS = []
HARNESS = "from harness import *\n\n"


def seed(id, needs, breaks, edits, demo, head=HARNESS):
    SEEDS.append({"SEED": id, "PROPERTY": id[:3], "NEEDS": needs, "BREAKS": breaks, "EDITS": edits, "DEMO": head + demo.lstrip()})


d = {}
exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__import__("sys").argv[1])), "batch2.py")).read(), d)
JHEAD = d["HEAD"]

AC = "oauth2/grants/authorization_code.py"
RT = "oauth2/grants/refresh_token.py"
AE = "oauth2/endpoints/authorization.py"
TE = "oauth2/endpoints/token.py"
BASIC = "oauth2/authentication/methods/client_secret_basic.py"

seed("C33-scopes-by-provider", "a request for a scope the client may not have",
     "the consent data lists the requested scopes the provider knows, not the ones the client may have",
     [(AE, "for scope in client.get_allowed_scopes(scopes)", "for scope in scopes if scope in self.config.scopes")], '''
app = App()
app.clients["cb"].scopes[:] = ["profile"]
r = asyncio.run(app.provider.authorize.get_consent_data(app.auth_request(scope="profile email")))
expect(isinstance(r, dict) and list(r["scopes"]) == ["profile"], "consent is asked for a scope the client may not have")
''')

seed("C33-consent-first-scope", "a request that repeats the separator between scopes",
     "scopes separated by more than one space are shown wrongly",
     [(AE, '''            scopes: list[str] = scope.split()
''', '''            scopes: list[str] = scope.split(" ", 1)
''')], '''
app = App()
r = asyncio.run(app.provider.authorize.get_consent_data(app.auth_request(scope="openid profile email")))
expect(isinstance(r, dict) and sorted(r["scopes"]) == ["email", "openid", "profile"], "scopes are missing from the consent data")
''')

seed("C34-scratch-key", "two threads using the same algorithm with different keys",
     "HMAC signing keeps the key on the algorithm class between two steps",
     [("jose/jwa/jws.py", '''    def sign(cls, data: bytes, key: JsonWebKey) -> bytes:
        cls.validate_key(key)
        signature = key.sign(data, cls.__hash_name__)
        return base64url_encode(signature)
''', '''    def sign(cls, data: bytes, key: JsonWebKey) -> bytes:
        cls.validate_key(key)
        cls._key = key
        signature = cls._key.sign(data, cls.__hash_name__)
        return base64url_encode(signature)
''')], '''
import threading
from psion.jose.jwa import jws as jwa
other = JsonWebKey({"kty": "oct", "k": b64(b"o" * 64)})
want = JsonWebSignature(b"x", {"alg": "HS256"}).serialize(OCT)
state = {"in": False}


def tracer(frame, event, arg):
    if "psion/jose/jwa/jws.py" not in frame.f_code.co_filename or frame.f_code.co_name != "sign":
        return None

    def local(f, ev, a):
        sys.settrace(None)
        f.f_trace = local
        n = state.setdefault("n", 0)
        state["n"] += 1
        if ev == "line" and n == state["at"]:
            t = threading.Thread(target=lambda: JsonWebSignature(b"y", {"alg": "HS256"}).serialize(other))
            t.start()
            t.join()
        sys.settrace(tracer)
        return local
    return local


for at in range(8):
    state.clear()
    state["at"] = at
    sys.settrace(tracer)
    got = JsonWebSignature(b"x", {"alg": "HS256"}).serialize(OCT)
    sys.settrace(None)
    expect(got == want, "a signature depends on what another thread does")
''', JHEAD)

seed("C34-shared-header", "a header dictionary reused after a token was built from it",
     "nested header members stay shared with the caller's dictionary",
     [("webtools.py", '''        _data = copy.deepcopy(data or {})
''', '''        _data = dict(data or {})
''')], '''
h = {"alg": "HS256", "crit": ["kid"], "kid": "a"}
c = {"sub": "a", "roles": ["x"]}
t = JsonWebTokenClaims(c)
c["roles"].append("admin")
expect(t["roles"] == ["x"], "claims changed after they were built")
''', JHEAD)

seed("C34-options-memory", "a decode with options followed by one without",
     "the options of the last decode are kept as default for later ones",
     [("jose/jwt.py", '''        self.options = options or {}
''', '''        if options:
            type(self).options = options
        self.options = options or getattr(type(self), "options", {})
'''), ("jose/jwt.py", '''        if isinstance(options, dict):
''', '''        if isinstance(options, dict) or self.options:
''')], '''
JsonWebTokenClaims({"sub": "a"}, {"sub": {"value": "a"}})
c = JsonWebTokenClaims({"sub": "b"}) if not raises(JsonWebTokenClaims, {"sub": "b"}) else None
expect(c is not None, "a claim set was refused because of an earlier one")
''', JHEAD)

seed("C35-owner-in-refresh", "another client's refresh token presented",
     "the refusal of somebody else's refresh token names the client it belongs to",
     [(RT, '''            raise InvalidClient
''', '''            raise InvalidClient(f"This token was issued to {token.get_client_id()} for {token.get_user_id()}.")
''')], '''
app = App()
rt = body(app.redeem(app.code("cb")))["refresh_token"]
r = app.token({"grant_type": "refresh_token", "refresh_token": rt}, "cp")
expect(b"u1" not in r.body and b" cb " not in r.body, "the refusal names the owner of the token")
''')

seed("C35-verifier-hint", "a failed code verification with the plain method",
     "the refusal of a wrong code verifier shows the challenge",
     [(AC, '''            raise InvalidGrant(description="PKCE challenge failure.")
''', '''            raise InvalidGrant(
                description=f"PKCE challenge failure: {code.get_code_challenge()}."
            )
''')], '''
app = App()
code = app.code("cb", code_challenge=VERIFIER, code_challenge_method="plain")
r = app.redeem(code, "cb", code_verifier="w" * 50)
expect(VERIFIER.encode() not in r.body, "the refusal shows the code verifier")
''')

seed("C36-shared-auth-methods", "a second provider created after the first",
     "authentication method instances are shared, so the first provider looks clients up in the second one's storage",
     [("oauth2/authentication/client_authentication.py", '''        self.auth_methods: list[BaseAuthentication] = [
            method(find_client) for method in BaseAuthentication.__subclasses__()
        ]
''', '''        for method in BaseAuthentication.__subclasses__():
            method.find_client = staticmethod(find_client)
        self.auth_methods: list[BaseAuthentication] = [
            object.__new__(method) for method in BaseAuthentication.__subclasses__()
        ]
''')], '''
a = App()
b = App(clients={"other": Client("other", "s", "client_secret_basic", ["https://o.example/cb"])})
expect(granted(a.token({"grant_type": "client_credentials"}, "cb")), "the first provider no longer knows its client")
''')

seed("C36-scope-cache", "two providers with different scopes",
     "the known scopes are remembered per grant class, so a second provider uses the first one's",
     [("oauth2/grants/base.py", '''            if scope not in self.config.scopes:
''', '''            if scope not in self._known.setdefault(self.__grant_type__, self.config.scopes):
'''), ("oauth2/grants/base.py", '''    __response_type__: str = None
''', '''    __response_type__: str = None
    _known: dict = {}
''')], '''
a = App(scopes=("openid", "profile", "email"))
b = App(scopes=("openid",))
expect(granted(a.token({"grant_type": "client_credentials", "scope": "email"}, "cb")), "provider a does not grant its scope")
expect(not granted(b.token({"grant_type": "client_credentials", "scope": "email"}, "cb")), "provider b grants a scope of provider a")
''')

seed("C07-challenge-lost", "a wrong secret in the Basic header",
     "the refusal of wrong Basic credentials carries no challenge",
     [(BASIC, '''            raise InvalidClient("Mismatching Client Secret.", headers=headers)
''', '''            raise InvalidClient("Mismatching Client Secret.")
''')], '''
app = App()
r = app.revoke({"token": "t"}, None, {"Authorization": basic("cb", "wrong")})
expect(any(k.lower() == "www-authenticate" for k in r.headers), "no challenge")
''')

seed("C13-token-headers", "an error answer followed by a success at the token endpoint",
     "the error headers are merged into the endpoint's own header dictionary",
     [(TE, '''            headers = exc.headers
            headers.update(self._headers)
''', '''            headers = self._headers
            headers.update(exc.headers)
''')], '''
app = App()
app.token({"grant_type": "client_credentials"}, None, {"Authorization": basic("cb", "wrong")})
r = app.token({"grant_type": "client_credentials"}, "cb")
expect(granted(r), "not granted")
expect(not any(k.lower() == "www-authenticate" for k in r.headers), "the headers of an earlier refusal are in this response")
''')
