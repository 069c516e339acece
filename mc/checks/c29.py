"""C29: the web integration passes requests and responses through unchanged."""
import copy
import itertools
import json
from urllib.parse import parse_qsl, quote, urlencode, urlsplit

from starlette.requests import Request as StarletteRequest

from mc import clock, consts
from mc.loop import run
from mc.world import CHALLENGE, VERIFIER, User, World, basic, location, query_of
from psion.oauth2.models import Request, Response
from psion.oauth2.models.http import JSONResponse, RedirectResponse
from psion.oauth2.providers.starlette import StarletteProvider

ID = "C29"
ASSUMPTIONS = ["the ASGI server delivers requests as the ASGI specification says (lower-case header names, percent-decoded path)",
               "blank parameters and parameters given twice are not judged beyond equality with direct handling; bodies are UTF-8",
               "the server may add Content-Length to responses"]
BOUNDS = {
    "quick": "requests: 2 methods x 13 query strings x 20 bodies x every split of the body into up to 3 chunks (every position) x 10 header sets x 4 paths x 3 "
             "users; up to 150 headers and bodies to 300000 octets in up to 64 chunks; letter case of directly given header names: 6; responses: 6 statuses x 7 header sets x 9 bodies of each response class; flows: 15 "
             "authorization, 25 token and 8 revocation requests and all histories authorize - redeem - refresh - revoke over HTTP and directly",
    "thorough": "all pairs of query string and body with every split into up to 4 chunks",
}
QUERIES = ["", "a=1", "a=1&b=2", "state=a%26b%3Dc%25%2B%20d", "s=%C3%A9%E6%BC%A2", "a=1+2&b=%2B", "redirect_uri=https%3A%2F%2Fc.example%2Fcb%3Fx%3D1%26y%3D2",
           "a=x?y/z:@", "&".join(f"p{i}=v{i}" for i in range(120)), "long=" + "z" * 500, "a=;b=1", "state=%23frag&x=1", "a=%00%0D%0A", *(f"{quote(t, safe='')}=1&a=2" for t in consts.NEW_TEXTS)]
BODIES = [b"", b"a=9", b"grant_type=x&scope=a+b", b"c=%26%3D%25%2B", "t=\u00e9\u6f22".encode(), b"t=%C3%A9", b"a=1&z=2", b"p=a=b", b"k=" + b"v" * 300, b"code=%2B%2F%3D",
          b" a=1 ", b"a=1\n", b"\r\na=1&b=2\r\n", b"\ta=1\t", b"+a+=+1+", b"&a=1&", b"a=1#b=2", b"?a=1", b"\xef\xbb\xbfa=1",
          b"&".join(b"p%d=v%d" % (i, i) for i in range(120))]
HEADERS = [{}, {"authorization": "Basic Y2I6c2VjcmV0LWI="}, {"authorization": "Bearer abc"}, {"x-custom": "a, b; c"}, {"content-type": "application/x-www-form-urlencoded"},
           {"content-type": "application/json", "accept": "*/*"}, {"x-latin": "caf\u00e9", "cookie": "a=b; c=d"},
           {"x_custom": "u", "x-custom": "d", "xcustom": "n"}, {"x-authorization": "Basic Y2I6c2VjcmV0LWI=", "proxy-authorization": "Bearer abc"},
           {"x-empty": "", "authorization_": "Basic Y2I6c2VjcmV0LWI=", "x-authorization": "a"},
           *({a: b} for t in consts.NEW_TEXTS[:8] if t.isascii() for a, b in ((t.lower(), "v"), ("x-custom", t), ("authorization", f"{t} x")) if a.replace("-", "").isalnum() and a not in ("host", "content-length", "transfer-encoding"))]
MANY = [{**{f"x-{j}": f"v{j}" for j in range(n)}, "authorization": "Basic Y2I6c2VjcmV0LWI=", **{f"y-{j}": "w" * j for j in range(m)}}
        for n in (0, 1, 3, 7, 20, 100) for m in (0, 1, 5, 50)] + [{"x-big": "b" * 9000, "authorization": "Bearer " + "t" * 9000}]
LARGE = [b"a=" + b"x" * n + b"&z=1" for n in (1000, 4093, 8189, 65533, 70000, 300000, *consts.around(400000))]
PATHS = [("/token", ""), ("/", ""), ("/oauth/authorize", "/root"), ("/caf\u00e9/x y", "")]
USERS = [None, "u1", "u2"]


def scope_for(method, path, root, query, headers, user, scheme="https", host="as.example"):
    h = {"host": host, **headers}
    return {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": scheme, "path": path,
            "raw_path": quote(path).encode(), "root_path": root, "query_string": query.encode("ascii"),
            "headers": [(k.encode("latin-1"), v.encode("latin-1")) for k, v in h.items()], "client": ("127.0.0.1", 5), "server": (host, 443), "user": user}


def chunks(body, cuts):
    pos = [0, *cuts, len(body)]
    parts = [body[a:b] for a, b in zip(pos, pos[1:])]
    return [{"type": "http.request", "body": p, "more_body": i < len(parts) - 1} for i, p in enumerate(parts)]


def receiver(messages):
    queue = list(messages)

    async def receive():
        return queue.pop(0) if queue else {"type": "http.disconnect"}
    return receive


def make(w, scope, messages):
    """The psion request of an ASGI request."""
    req = StarletteRequest(scope, receiver(messages))
    return run(w.provider.create_request(req))


def deliver(w, response, scope):
    """The ASGI messages of a psion response."""
    out = []

    async def go():
        r = await w.provider.create_response(response)

        async def send(m):
            out.append(m)
        await r(scope, receiver([]), send)
    run(go())
    return out


def seen(ctx, messages, **info):
    """(status, {header: value}, body) as the client sees it."""
    ctx.check(bool(messages) and messages[0]["type"] == "http.response.start", "no response was sent", messages=messages, **info)
    start = messages[0]
    body = b"".join(m.get("body", b"") for m in messages[1:])
    names = [k.decode("latin-1").lower() for k, _ in start["headers"]]
    ctx.check(len(names) == len(set(names)), "a header is sent twice", names=names, **info)
    return start["status"], {k.decode("latin-1").lower(): v.decode("latin-1") for k, v in start["headers"]}, body


def same_response(ctx, w, response, scope, **info):
    status, headers, body = seen(ctx, deliver(w, response, scope), **info)
    want = {k.lower(): v for k, v in response.headers.items()}
    extra = {k: v for k, v in headers.items() if k not in want}
    ctx.check(status == response.status_code, "the status changed", got=status, want=response.status_code, **info)
    ctx.check({k: headers.get(k) for k in want} == want, "a header changed", got=headers, want=want, **info)
    ctx.check(set(extra) <= {"content-length"} and extra.get("content-length", str(len(body))) == str(len(body)), "headers were added", extra=extra, **info)
    ctx.check(body == response.body, "the body changed", got=body, want=response.body, **info)
    return status, headers, body


def reference(query, body):
    d = dict(parse_qsl(query))
    d.update(parse_qsl(body.decode("utf-8")))
    return d


def splits(n, parts):
    out = [[]]
    if parts >= 2:
        out += [[i] for i in range(n + 1)]
    if parts >= 3:
        step = max(1, n // 12)
        out += [[i, j] for i in range(0, n + 1, step) for j in range(i, n + 1, step)]
    if parts >= 4:
        step = max(1, n // 6)
        out += [[i, j, k] for i in range(0, n + 1, step) for j in range(i, n + 1, step) for k in range(j, n + 1, step)]
    return out


def one(ctx, w, method, query, body, headers, path, user, cuts):
    scope = scope_for(method, path[0], path[1], query, headers, user)
    info = dict(method=method, query=query, body=body, headers=headers, path=path, user=user and user.id, cuts=cuts)
    r = make(w, scope, chunks(body, cuts))
    ctx.trace()
    ctx.step()
    ctx.check(isinstance(r, Request), "not a request", **info)
    ctx.check(r.method.upper() == method, "the method changed", got=r.method, **info)
    u = urlsplit(r.url)
    ctx.check((u.scheme, u.netloc, u.query) == ("https", "as.example", query), "the URL changed", got=r.url, **info)
    ctx.check(u.path == path[1] + path[0], "the path changed", got=r.url, **info)
    ctx.check(r.user is user, "the user changed", got=repr(r.user), **info)
    want = reference(query, body)
    ctx.check(dict(r.data) == want, "the parameters changed", got=dict(r.data), want=want, **info)
    ctx.check(dict(r.query) == dict(parse_qsl(query)), "the query parameters changed", got=dict(r.query), **info)
    ctx.check(dict(r.form()) == dict(parse_qsl(body.decode())), "the form parameters changed", got=dict(r.form()), **info)
    for k, v in {"host": "as.example", **headers}.items():
        ctx.check(r.headers.get(k) == v, "a header changed", header=k, got=r.headers.get(k), **info)
    for k in ("authorization", "Authorization", "cookie"):
        if k.lower() not in headers:
            ctx.check(r.headers.get(k) is None, "a header that was not sent", header=k, got=r.headers.get(k), **info)
    ctx.check(r.client is None, "a request starts with a client", **info)


RESP_HEADERS = [None, {}, {"Cache-Control": "no-store", "Pragma": "no-cache"}, {"X-A": "b"}, {"WWW-Authenticate": 'Basic realm="a, b"'}, {"content-type": "text/x"},
                {"X-Latin": "caf\u00e9"}]
STATUS = [200, 201, 303, 400, 401, 500]
BODY_VALUES = [None, b"", b"x", "text", "\u00e9\u6f22", b"\xff\x00\xfe", b"z" * 70000]
JSON_VALUES = [{}, {"a": 1}, {"a": "\u00e9\u6f22\""}, {"a": [1, {"b": None}]}, [], "x", None, {"big": "z" * 70000}]


def cases(tier):
    out = []
    for m, q in itertools.product(("GET", "POST"), range(len(QUERIES))):
        out.append(["request", m, q])
    out += [["split", i] for i in range(len(BODIES))]
    out += [["direct"], ["responses"], ["many"]] + [["large", i] for i in range(len(LARGE))]
    out += [["auth", i] for i in range(len(auth_menu()))]
    out += [["token", i] for i in range(len(token_menu()))]
    out += [["flow", list(f)] for n in range(1, 5 if tier == "quick" else 6) for f in itertools.product(FLOW, repeat=n)]
    return out


def auth_menu():
    base = {"response_type": "code", "client_id": "cb", "redirect_uri": "https://cb.example/cb", "code_challenge": CHALLENGE, "code_challenge_method": "S256",
            "scope": "profile", "state": "st"}
    return [base, {**base, "state": "a&b=c #%+\u00e9"}, {**base, "scope": "openid profile"}, {**base, "scope": "nope"}, {**base, "client_id": "ghost"},
            {**base, "redirect_uri": "https://evil.example/"}, {**base, "response_type": "token"}, {**base, "code_challenge": "x"}, {**base, "code_challenge_method": "plain"},
            {k: v for k, v in base.items() if k != "state"}, {k: v for k, v in base.items() if k != "client_id"}, {}, {**base, "nonce": "n \u00e9"},
            {**base, "redirect_uri": "https://cb.example/alt"}, {**base, "scope": ""}]


def token_menu():
    code = {"grant_type": "authorization_code", "code": "c1", "redirect_uri": "https://cb.example/cb", "code_verifier": VERIFIER}
    ref_ = {"grant_type": "refresh_token", "refresh_token": "r1"}
    cc = {"grant_type": "client_credentials", "scope": "profile"}
    good, bad = {"authorization": basic("cb", "secret-b")}, {"authorization": basic("cb", "nope")}
    out = []
    for form in (code, ref_, cc, {**code, "code": "zz"}, {**ref_, "scope": "admin"}, {**cc, "scope": "nope"}, {}, {"grant_type": "x"}, {**code, "code_verifier": "bad"}):
        for h in (good, bad, {}):
            out.append(("token", form, h))
    out.append(("token", {**cc, "client_id": "cp", "client_secret": "secret-p"}, {}))
    out.append(("token", {**ref_, "client_id": "cp", "client_secret": "secret-p"}, {}))
    for form in ({"token": "r1"}, {"token": "zz", "token_type_hint": "refresh_token"}, {"token": "r1", "token_type_hint": "x"}, {}):
        for h in (good, bad):
            out.append(("revoke", form, h))
    return out


FLOW = ["authorize", "redeem", "refresh", "revoke"]


def world(provider_cls=StarletteProvider):
    clock.set_now(clock.BASE)
    w = World(provider_cls=provider_cls)
    w.codes["c1"] = {"client": "cb", "user": "u1", "redirect_uri": "https://cb.example/cb", "scopes": ["profile"], "challenge": CHALLENGE, "method": "S256",
                     "nonce": None, "auth_time": 0, "expires": clock.NOW + 600}
    w.refresh["r1"] = {"token": "r1", "client": "cb", "user": "u1", "scopes": ["profile"], "expires": clock.NOW + 600}
    return w


def over_http(ctx, w, endpoint, method, query, body, headers, user, cuts=()):
    scope = scope_for(method, "/" + endpoint, "", query, headers, user)

    async def go():
        req = await w.provider.create_request(StarletteRequest(scope, receiver(chunks(body, cuts))))
        return await getattr(w.provider, endpoint)(req)
    resp = run(go())
    return same_response(ctx, w, resp, scope, endpoint=endpoint, query=query, body=body)


def directly(w, endpoint, method, query, body, headers, user):
    url = "https://as.example/" + endpoint + ("?" + query if query else "")
    h = {k.title(): v for k, v in headers.items()}
    r = run(getattr(w.provider, endpoint)(Request(method, url, h, body, user)))
    return r.status_code, {k.lower(): v for k, v in r.headers.items()}, r.body


def mask(result, codes):
    """Random codes replaced by their order of creation."""
    status, headers, body = result
    h = {k: v for k, v in headers.items() if k != "content-length"}
    for i, c in enumerate(codes):
        if "location" in h:
            h["location"] = h["location"].replace(c, f"<code{i}>")
    return status, h, body


def compare(ctx, plan, form_auth=False):
    """The same history over HTTP and directly."""
    results = []
    for how in ("http", "direct"):
        w = world()
        fresh = []
        answers = []
        for endpoint, method, query, body, headers, user in plan(w, fresh):
            before = set(w.codes)
            u = None if user is None else w.users[user]
            if how == "http":
                res = over_http(ctx, w, endpoint, method, query, body, headers, u, (len(body) // 2,) if body else ())
            else:
                res = directly(w, endpoint, method, query, body, headers, u)
            fresh += sorted(set(w.codes) - before)
            answers.append(mask(res, fresh))
            ctx.step()
        log = [tuple("<code>" if a in fresh else a for a in args) for _, _, args in w.log]
        results.append((answers, [n for _, n, _ in w.log], log, sorted(w.refresh), len(w.codes), w.revoked))
        ctx.trace()
    ctx.check(results[0] == results[1], "HTTP and direct handling differ", http=repr(results[0])[:2000], direct=repr(results[1])[:2000])
    return results[0]


def run_case(ctx, case):
    clock.set_now(clock.BASE)
    mode = case[0]
    ctx.state(case)
    if mode == "request":
        w = world()
        _, method, q = case
        for b, h, path, u in itertools.product(BODIES, HEADERS, PATHS, USERS):
            one(ctx, w, method, QUERIES[q], b, h, path, w.users.get(u), [len(b) // 2] if b else [])
    elif mode == "split":
        w = world()
        body = BODIES[case[1]]
        qs = QUERIES if ctx.tier == "thorough" else QUERIES[:3]
        for q, cuts in itertools.product(qs, splits(len(body), 4 if ctx.tier == "thorough" else 3)):
            one(ctx, w, "POST", q, body, HEADERS[4], PATHS[0], w.users["u1"], cuts)
    elif mode == "many":
        w = world()
        for h, m, b in itertools.product(MANY, ("GET", "POST"), BODIES[:3]):
            one(ctx, w, m, "a=1", b, h, PATHS[0], w.users["u1"], [])
        for n in (0, 1, 5, 20):
            r = Response(200, {f"X-{j}": f"v{j}" for j in range(n)}, b"b")
            same_response(ctx, w, r, scope_for("GET", "/", "", "", {}, None), kind="many", number=n)
    elif mode == "large":
        w = world()
        b = LARGE[case[1]]
        for k in (1, 2, 3, 7, 64):
            one(ctx, w, "POST", "q=1", b, HEADERS[4], PATHS[0], w.users["u1"], [len(b) * i // k for i in range(1, k)])
    elif mode == "direct":
        for name in ("authorization", "Authorization", "AUTHORIZATION", "aUtHoRiZaTiOn", "Authorization".swapcase(), "authorizatioN"):
            w = world()
            r = run(w.provider.token(Request("POST", "https://as.example/token", {name: basic("cb", "secret-b"), "X-Other": "1"},
                                             b"grant_type=client_credentials&scope=profile", None)))
            ctx.trace()
            ctx.check(r.status_code == 200, "a header name in another letter case is not recognized", name=name, body=r.body)
        for q, b in itertools.product(QUERIES, BODIES):
            for m in ("GET", "POST", "get", "post", "Post"):
                r = Request(m, "https://as.example/x" + ("?" + q if q else ""), {"Aa": "1"}, b, None)
                ctx.trace()
                ctx.check(dict(r.data) == reference(q, b), "the parameters differ", query=q, body=b, got=dict(r.data))
                ctx.check(r.headers.get("aa") == "1" and r.path == "/x", "headers or path differ", got=repr(r.headers))
        # the caller's headers are not changed
        h = {"Authorization": "x"}
        Request("GET", "https://a/", h)
        ctx.check(h == {"Authorization": "x"}, "the caller's headers were changed", got=h)
    elif mode == "responses":
        w = world()
        scope = scope_for("GET", "/", "", "", {}, None)
        for st, h, b in itertools.product(STATUS, RESP_HEADERS, BODY_VALUES):
            r = Response(st, copy.deepcopy(h), b)
            want = b"" if b is None else (b.encode() if isinstance(b, str) else b)
            ctx.check(r.status_code == st and r.body == want and dict(r.headers) == (h or {}), "the response differs from its parts", status=st, headers=h)
            same_response(ctx, w, r, scope, kind="plain", made_with=[st, h])
            ctx.trace()
        for st, h, b in itertools.product(STATUS, RESP_HEADERS[:5], JSON_VALUES):
            r = JSONResponse(st, copy.deepcopy(h), b)
            _, hd, body = same_response(ctx, w, r, scope, kind="json", made_with=[st, h])
            ctx.check(json.loads(body) == b and hd.get("content-type") == "application/json", "the JSON body differs", got=body, want=b)
            ctx.trace()
        for st, h in itertools.product((303, 302, 307), RESP_HEADERS[:5]):
            for url in ("https://a.example/cb?x=1&y=%26", "https://a.example/\u00e9?z=\u6f22", "https://[::1]:80/a?b#c", "app:/cb?code=a-_.~", "https://u:p@h/?q=+%2B"):
                r = RedirectResponse(url, st, copy.deepcopy(h))
                _, hd, body = same_response(ctx, w, r, scope, kind="redirect", url=url)
                ctx.check(body == b"" and "location" in hd and hd["location"].isascii(), "the redirect differs", got=hd)
                for k, v in (h or {}).items():
                    ctx.check(hd.get(k.lower()) == v, "a header is missing", header=k)
                ctx.trace()
    elif mode == "auth":
        params = auth_menu()[case[1]]
        for user in (None, "u1", "u2"):
            for method in ("GET", "POST"):
                q, b = (urlencode(params), b"") if method == "GET" else ("", urlencode(params).encode())
                compare(ctx, lambda w, fresh: iter([("authorize", method, q, b, {"accept": "text/html"}, user)]))
                # half of the parameters in the query, all of them in the form
                if method == "POST":
                    half = urlencode({k: "other" for k in list(params)[:3]})
                    a = compare(ctx, lambda w, fresh: iter([("authorize", method, half, b, {}, user)]))
                    c = compare(ctx, lambda w, fresh: iter([("authorize", method, "", b, {}, user)]))
                    ctx.check(a[0] == c[0], "query parameters override form parameters", params=params)
    elif mode == "token":
        endpoint, form, headers = token_menu()[case[1]]
        b = urlencode(form).encode()
        for q in ("", "x=1", "scope=other"):
            for extra in ({}, {"content-type": "application/x-www-form-urlencoded"}):
                compare(ctx, lambda w, fresh: iter([(endpoint, "POST", q, b, {**headers, **extra}, None)]))
    else:
        def plan(w, fresh):
            rts = []
            h = {"authorization": basic("cb", "secret-b")}
            for step in case[1]:
                if step == "authorize":
                    yield "authorize", "GET", urlencode(auth_menu()[0]), b"", {}, "u1"
                    continue
                rts = [t for t in w.refresh]
                rt = rts[-1] if rts else "gone"
                form = {"redeem": {**token_menu()[0][1], "code": fresh[-1] if fresh else "c1"}, "refresh": {"grant_type": "refresh_token", "refresh_token": rt},
                        "revoke": {"token": rt}}[step]
                yield "revoke" if step == "revoke" else "token", "POST", "", urlencode(form).encode(), h, None
        compare(ctx, plan)
