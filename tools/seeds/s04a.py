SEED = "C04-prefix-uri"
PROPERTY = "C04"
NEEDS = "a redirect URI that extends a registered one"
BREAKS = "redirects go to URIs that only start like a registered one (https://cb.example/cb.evil.example)"
EDITS = [("oauth2/endpoints/authorization.py", '''redirect_uri not in client.get_redirect_uris()''', '''not redirect_uri.startswith(tuple(client.get_redirect_uris()))''')]
DEMO = '''
from harness import *

app = App()
r = app.authorize(redirect_uri="https://cb.example/cb2")
expect(location(r).startswith("https://as.example/error"), "redirected to " + location(r))
expect(not app.codes, "a code was issued")
'''
