AC, RT = "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py"
SEEDS = [
    dict(SEED="C02-two-digit-year", PROPERTY="C02", NEEDS="a code that expires in another century than the current time",
         BREAKS="the validity is judged by two digits of the year",
         EDITS=[(AC, "datetime.utcnow() >= code.get_expiration()", 'datetime.utcnow().strftime("%y%m%d%H%M%S%f") >= code.get_expiration().strftime("%y%m%d%H%M%S%f")')],
         DEMO='''
from harness import *

app = App()
for year, ok in ((2099, True), (2100, True), (2199, True), (1999, False)):
    code = app.code()
    app.codes[code]["expires"] = datetime(year, 1, 1)
    expect(granted(app.redeem(code)) == ok, f"a code that expires in {year}")
'''),
    dict(SEED="C09-summer-time", PROPERTY="C09", NEEDS="a time zone with summer time and an expiration in the hour of the change",
         BREAKS="UTC times are read as local times, of which an hour does not exist",
         EDITS=[(RT, "datetime.utcnow() >= token.get_expiration()", "datetime.utcnow().timestamp() >= token.get_expiration().timestamp()")],
         DEMO='''
import os, time
os.environ["TZ"] = "EST5EDT,M3.2.0,M11.1.0"
time.tzset()
from harness import *
import psion.oauth2.grants.refresh_token as mod

NOW = None


class At(datetime):
    @classmethod
    def utcnow(cls):
        return NOW


for name in dir(mod):
    if getattr(mod, name) is datetime:
        setattr(mod, name, At)
for now, end in (((2, 45), (3, 15)), ((1, 30), (2, 30)), ((2, 10), (3, 0)), ((3, 15), (2, 45)), ((3, 0), (2, 10))):
    app = App()
    rt = body(app.redeem(app.code()))["refresh_token"]
    NOW = At(2024, 3, 10, *now)
    app.refresh[rt]["expires"] = At(2024, 3, 10, *end)
    r = app.token({"grant_type": "refresh_token", "refresh_token": rt})
    expect(granted(r) == (now < end), f"at {now} with a token that expires at {end}")
'''),
]
