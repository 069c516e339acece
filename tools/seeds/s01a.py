SEED = "C01-lookup-before-mark"
PROPERTY = "C01"
NEEDS = "two concurrent redemptions of one code, the second one arriving while the first awaits the user lookup"
BREAKS = "the code is protected only after its user has been looked up, so both concurrent redemptions get tokens"
EDITS = [("oauth2/grants/authorization_code.py", '''            user = await self.adapter.find_user(code.get_user_id())

            if not user:
                raise InvalidRequest(description="No user found for this code.")

            access_token''', '''            # The code is checked and claimed: other requests may be let in again.
            self._redeeming.discard(redeemed)
            user = await self.adapter.find_user(code.get_user_id())

            if not user:
                raise InvalidRequest(description="No user found for this code.")

            access_token''')]
DEMO = '''
from harness import *

app = App()
code = app.code()
app.delay = True


async def late(n):
    for _ in range(n):
        await asyncio.sleep(0)
    return await app.provider.token(app.post("/token", app.code_form(code), "cb"))


async def both(n):
    return await asyncio.gather(late(0), late(n))


for n in range(12):
    app.delay = False
    code = app.code()
    app.delay = True
    out = asyncio.run(both(n))
    expect(sum(map(granted, out)) <= 1, f"both requests were granted with a delay of {n}")
'''
