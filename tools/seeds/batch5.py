"""Planted bugs, part 5: changes while a request is handled, odd constants. Missed by the checks when first tried, except where DESIGN.md says otherwise."""
import os
import sys

d = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "batch4.py")).read(), d)
seed, JHEAD, SEEDS = d["seed"], d["JHEAD"], d["SEEDS"]
SEEDS.clear()
AC, RT, GB, AE, TE = d["AC"], d["RT"], d["GB"], d["AE"], d["TE"]
OI = "oidc/flows/authorization_code.py"

seed("C02-expiry-too-early", "a code that expires while the storage is still reading it",
     "the time that the expiry of a code is compared with is taken before the code is read",
     [(AC, '''            data = await self._validate_token_request(data)
''', '''            data = await self._validate_token_request(data)
            data["now"] = datetime.utcnow()
'''), (AC, '''datetime.utcnow() >= code.get_expiration()''', '''data["now"] >= code.get_expiration()''')], '''
import psion.oauth2.grants.authorization_code as module


class Moving(datetime):
    shift = timedelta(0)

    @classmethod
    def utcnow(cls):
        return datetime.utcnow() + cls.shift


module.datetime = Moving
app = App()
code = app.code()


class Slow(dict):
    def __getitem__(self, k):
        Moving.shift = timedelta(hours=1)
        return super().__getitem__(k)


app.codes = Slow(app.codes)
expect(not granted(app.redeem(code)), "an expired code was redeemed")
''')

seed("C02-redeem-narrowed", "a client whose scopes are reduced between authorization and redemption",
     "the refresh token of a redeemed code loses scopes that the client is no longer allowed, so that it differs from the code",
     [(AC, '''                await self.adapter.create_refresh_token(client, user, code.get_scopes())
''', '''                await self.adapter.create_refresh_token(
                    client, user, client.get_allowed_scopes(code.get_scopes())
                )
''')], '''
app = App()
code = app.code(scope="profile email")
app.clients["cb"].scopes.remove("email")
expect(granted(app.redeem(code)), "refused")
expect(all(sorted(t[3]) == ["email", "profile"] for t in app.issued), f"tokens differ from the code: {app.issued}")
''')

seed("C03-verifier-label", "a verifier that is the plain challenge behind a label",
     "a label in front of a plain verifier is ignored",
     [(AC, '''    return challenge == verifier
''', '''    return challenge in (verifier, verifier[6:] if verifier[:6] == "plain:" else None)
''')], '''
app = App()
code = app.code(code_challenge="v" * 50, code_challenge_method="plain")
expect(not granted(app.redeem(code, code_verifier="plain:" + "v" * 50)), "another verifier was accepted")
''')

seed("C06-many-scopes", "a request of more than 37 scopes",
     "scopes beyond the 37th are not checked",
     [(GB, '''        for scope in scopes:
''', '''        for scope in scopes[:37]:
'''), (GB, '''        if not set(scopes).issubset(''', '''        if not set(scopes[:37]).issubset(''')], '''
app = App()
r = app.token({"grant_type": "client_credentials", "scope": " ".join(["profile"] * 40 + ["admin"])})
expect(not granted(r), "a scope of nobody was granted")
''')

seed("C09-expiry-too-early", "a refresh token that expires while the storage is still reading it",
     "the time that the expiry of a refresh token is compared with is taken before the token is read",
     [(RT, '''        data = self._validate_token_request(data)
''', '''        now = datetime.utcnow()
        data = self._validate_token_request(data)
'''), (RT, '''        self._validate_refresh_token(token, client)
''', '''        self._validate_refresh_token(token, client, now)
'''), (RT, '''    def _validate_refresh_token(self, token: RefreshTokenMixin, client: ClientMixin):
''', '''    def _validate_refresh_token(
        self, token: RefreshTokenMixin, client: ClientMixin, now: datetime
    ):
'''), (RT, '''datetime.utcnow() >= token.get_expiration()''', '''now >= token.get_expiration()''')], '''
import psion.oauth2.grants.refresh_token as module


class Moving(datetime):
    shift = timedelta(0)

    @classmethod
    def utcnow(cls):
        return datetime.utcnow() + cls.shift


module.datetime = Moving
app = App()
expect(granted(app.redeem(app.code())), "refused")
token = next(iter(app.refresh))


class Slow(dict):
    def __getitem__(self, k):
        Moving.shift = timedelta(days=2)
        return super().__getitem__(k)


app.refresh = Slow(app.refresh)
expect(not granted(app.token({"grant_type": "refresh_token", "refresh_token": token})), "an expired refresh token was accepted")
''')

seed("C14-lifetime-drift", "time passing while the user's info is read",
     "iat is taken before the storage accesses and exp after them, so that the lifetime differs from the configured one",
     [(OI, '''        key_info = await self.adapter.get_key_info()
''', '''        iat = int(datetime.now(timezone.utc).timestamp())
        key_info = await self.adapter.get_key_info()
'''), (OI, '''                "iat": now,
''', '''                "iat": iat,
''')], '''
import time

from psion.oidc import AuthorizationCodeFlow

app = App(hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)])


def lifetime():
    r = app.redeem(app.code(scope="openid"))
    p = body(r)["id_token"].split(".")[1]
    c = json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))
    return c["exp"] - c["iat"]


usual = lifetime()


class SlowUser(User):
    def get_user_id(self):
        if app.calls[-1:] == ["get_userinfo"]:
            time.sleep(1.1)
        return self.id


app.users["u1"] = SlowUser("u1")
expect(lifetime() == usual, "the lifetime of an ID token depends on how long the storage takes")
''')

seed("C14-long-claim", "a claim of the user's info longer than 77 characters",
     "long claims are left out of the ID token",
     [(OI, '''                **userinfo,
''', '''                **{k: v for k, v in userinfo.items() if len(str(v)) < 77},
''')], '''
from psion.oidc import AuthorizationCodeFlow

app = App(hooks=[(AuthorizationCodeGrant, AuthorizationCodeFlow)])
app.users["u" * 90] = User("u" * 90)
code = app.code(scope="openid")
app.codes[code]["user"] = "u" * 90
r = app.redeem(code)
p = body(r)["id_token"].split(".")[1]
c = json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))
expect(c.get("sub") == "u" * 90, f"the user is missing: {c}")
''')
