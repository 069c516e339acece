"""Planted bugs, part 6: coinciding values, hooks of the same name, characters of a redirect URI. All missed by the checks when first tried, except C11-ask-again (found by C10)."""
import os
import sys

d = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "batch4.py")).read(), d)
seed, JHEAD, SEEDS = d["seed"], d["JHEAD"], d["SEEDS"]
SEEDS.clear()
AC, RT, GB, AE, TE = d["AC"], d["RT"], d["GB"], d["AE"], d["TE"]
OI = "oidc/flows/authorization_code.py"
PB = "oauth2/providers/base.py"
RV = "oauth2/endpoints/revocation.py"
BAS = "oauth2/authentication/methods/client_secret_basic.py"

seed("C02-owner-as-client", "a client whose ID is the ID of the code's user",
     "a code may also be redeemed by a client that carries the ID of the user",
     [(AC, '''        if client.get_client_id() != code.get_client_id():
''', '''        if client.get_client_id() not in (code.get_client_id(), code.get_user_id()):
''')], '''
uri = ["https://shared.example/cb"]
app = App(clients={"cb": Client("cb", "s", "client_secret_basic", uri), "u1": Client("u1", "t", "client_secret_basic", uri)})
expect(granted(app.redeem(app.code("cb"), "cb")), "refused")
expect(not granted(app.redeem(app.code("cb"), "u1")), "another client redeemed the code")
''')

seed("C09-owner-as-client", "a client whose ID is the ID of the token's user",
     "a refresh token may also be used by a client that carries the ID of the user",
     [(RT, '''        if token.get_client_id() != client.get_client_id():
''', '''        if client.get_client_id() not in (token.get_client_id(), token.get_user_id()):
''')], '''
uri = ["https://shared.example/cb"]
app = App(clients={"cb": Client("cb", "s", "client_secret_basic", uri), "u1": Client("u1", "t", "client_secret_basic", uri)})
rt = body(app.redeem(app.code("cb"), "cb"))["refresh_token"]
expect(not granted(app.token({"grant_type": "refresh_token", "refresh_token": rt}, "u1")), "another client used the token")
expect(granted(app.token({"grant_type": "refresh_token", "refresh_token": rt}, "cb")), "refused")
''')

seed("C14-nonce-like-state", "an authorization request whose nonce equals its state",
     "a nonce that repeats the state is not kept, so that the ID token lacks it",
     [(OI, '''            return {"nonce": nonce}
''', '''            return {"nonce": nonce} if nonce != data.get("state") else None
''')], '''
from psion.oidc import AuthorizationCodeFlow

app = App(hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)])
for state in ("s", "n"):
    t = body(app.redeem(app.code(scope="openid", state=state, nonce="n")))["id_token"].split(".")[1]
    expect(json.loads(base64.urlsafe_b64decode(t + "=" * (-len(t) % 4))).get("nonce") == "n", f"nonce with state {state}")
''')

seed("C05-reserved-character", "a registered redirect URI with an @ in its path",
     "an @ in the redirect URI is percent-encoded in the redirect",
     [("oauth2/models/http.py", """safe=":/%#?&=@[]!$&'()*+,;\"""", """safe=":/%#?&=[]!$&'()*+,;\"""")], '''
app = App(clients={"cb": Client("cb", "s", "client_secret_basic", ["https://cb.example/~a", "https://cb.example/@me/cb"])})
for uri in app.clients["cb"].uris:
    expect(location(app.authorize(redirect_uri=uri)).startswith(uri + "?"), uri)
''')

seed("C07-unset-secret", "a confidential client that was registered without a secret",
     "the client ID is accepted as the secret of a client that has none",
     [(BAS, '''        if client.get_client_secret() != client_secret:
''', '''        if (client.get_client_secret() or client_id) != client_secret:
''')], '''
app = App()
app.clients["cb"].secret = None
form = {"grant_type": "client_credentials", "scope": "profile"}
for guess in ("None", "cb", "x"):
    r = app.token(form, None, {"Authorization": basic("cb", guess)})
    expect(not granted(r), f"accepted {guess}")
''')

seed("C11-ask-again", "a storage that fails after it carried out the revocation",
     "a failed revocation is asked for a second time",
     [(RV, '''            await self.adapter.revoke_token(client, token, token_type_hint)
''', '''            try:
                await self.adapter.revoke_token(client, token, token_type_hint)
            except OSError:
                await self.adapter.revoke_token(client, token, token_type_hint)
''')], '''
app = App()
asked = []


async def failing(client, token, token_type_hint=None):
    asked.append(token)
    raise OSError("lost connection")


app.provider.adapter.revoke_token = failing
app.revoke({"token": "t"})
expect(asked == ["t"], f"asked {asked}")
''')

seed("C12-same-name", "two different hooks whose classes have the same name",
     "of hooks with the same class name only the first is registered",
     [(PB, '''                    grant.__hooks__[checkpoint].add(hook(self.adapter, self.config))
''', '''                    if any(type(h).__name__ == hook.__name__ for h in grant.__hooks__[checkpoint]):
                        continue

                    grant.__hooks__[checkpoint].add(hook(self.adapter, self.config))
''')], '''
def make(member):
    class Hook:
        def __init__(self, adapter, config):
            pass

        async def token_response(self, token, data, client, user):
            return {member: "1"}
    return Hook


app = App(hooks=[(AuthorizationCodeGrant, make("a")), (AuthorizationCodeGrant, make("b"))])
b = body(app.redeem(app.code()))
expect("a" in b and "b" in b, f"members {sorted(b)}")
''')

seed("C12-falsy-member", "a hook that returns a member with the value 0, false or an empty list",
     "falsy members that a hook returns are dropped from the token response",
     [(AC, '''                    token.update(hook)
''', '''                    token.update({k: v for k, v in hook.items() if v})
''')], '''
class Hook:
    def __init__(self, adapter, config):
        pass

    async def token_response(self, token, data, client, user):
        return {"a": 1, "b": 0, "c": False, "d": []}


app = App(hooks=[(AuthorizationCodeGrant, Hook)])
b = body(app.redeem(app.code()))
expect((b.get("a"), b.get("b"), b.get("c"), b.get("d")) == (1, 0, False, []), f"{b}")
''')

seed("C35-challenge-start", "a redemption with a wrong verifier",
     "the error of a failed PKCE check shows the beginning of the stored challenge",
     [(AC, '''raise InvalidGrant(description="PKCE challenge failure.")''', '''raise InvalidGrant(
                description=f"PKCE challenge {code.get_code_challenge()[:10]} failure."
            )''')], '''
app = App()
r = app.redeem(app.code(), code_verifier="x" * 43)
expect(CHALLENGE[:8] not in str(body(r)), f"{body(r)}")
''')
