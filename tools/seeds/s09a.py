SEED = "C09-expiry-local"
PROPERTY = "C09"
NEEDS = "a refresh presented exactly at the instant of expiry"
BREAKS = "the refresh token is still honoured at its expiration instant"
EDITS = [("oauth2/grants/refresh_token.py", '''datetime.utcnow() >= ''', '''datetime.utcnow() > ''')]
DEMO = '''
from harness import *
import psion.oauth2.grants.refresh_token as mod

app = App()
rt = body(app.redeem(app.code()))["refresh_token"]
expires = app.refresh[rt]["expires"]


class At(datetime):
    @classmethod
    def utcnow(cls):
        return expires


for name in dir(mod):
    if getattr(mod, name) is datetime:
        setattr(mod, name, At)
r = app.token({"grant_type": "refresh_token", "refresh_token": rt})
expect(not granted(r), "an expired refresh token was honoured")
'''
