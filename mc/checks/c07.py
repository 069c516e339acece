"""C07: only a correctly authenticated client is served."""
from mc import clock, coincide, hist, ref
from mc.near import long_pairs, near
from mc.util import attempt, client, effects, grid
from mc.world import CHALLENGE, VERIFIER, World, error_of, granted, make_request
from mc.world import header as get_header

import base64

ID = "C07"
ASSUMPTIONS = [
    "an Authorization header that does not carry a non-empty client ID and secret is no presentation of its own: next to "
    "a correct body presentation it may be ignored or refused",
    "a client_id in the body that differs from the client of a correct Basic header may be ignored or refused",
    "confidential clients have a non-empty secret; a public client has none",
]
BOUNDS = {
    "quick": "full product: 20 Authorization headers x 7 body client IDs x 8 body secrets x 5 query credentials x 5 secret "
             "assignments (distinct, shared, equal to the ID, one character, non-ASCII) on the token endpoint (3 grants) and "
             "the revocation endpoint; every single-character change, prefix and extension of the right secrets; "
             "every near miss of a secret and of a client ID, secrets and IDs of 60 lengths up to 100,000 that differ only at "
             "one end, in both directions",
    "thorough": "as quick (the space is finite and covered)",
}


def b64(s):
    return base64.b64encode(s.encode()).decode()


SETS = {
    "plain": {"cb": "secret-b", "cp": "secret-p"},
    "same": {"cb": "same-secret", "cp": "same-secret"},
    "id": {"cb": "cb", "cp": "cp"},
    "tiny": {"cb": "x", "cp": ":"},
    "odd": {"cb": "p\u00e4ss:w\u00f6rd &=+%", "cp": "a:b c+d%26&=\u6f22"},
}


def headers_menu(s):
    """name -> (header value, (id, secret) presented or None)"""
    cb, cp = s["cb"], s["cp"]
    m = {"none": (None, None)}
    pairs = {
        "cb": ("cb", cb), "cb-wrong": ("cb", cb + "x"), "cb-other": ("cb", "other"), "cb-cp": ("cb", cp), "cp": ("cp", cp),
        "cp-cb": ("cp", cb), "pub-any": ("pub", "x"), "pub-none": ("pub", "None"), "unknown": ("ghost", cb),
        "upper": ("CB", cb), "odd-none": ("odd", "None"),
    }
    for k, (i, sec) in pairs.items():
        m[k] = ("Basic " + b64(f"{i}:{sec}"), (i, sec))
    m["lower-scheme"] = ("basic " + b64(f"cb:{cb}"), ("cb", cb))
    for k, v in {"cb-empty": "Basic " + b64("cb:"), "pub-empty": "Basic " + b64("pub:"), "noid": "Basic " + b64(":" + cb),
                 "nocolon": "Basic " + b64("cb" + "secret"), "bearer": "Bearer " + b64(f"cb:{cb}"), "plain": f"Basic cb:{cb}",
                 "empty": "Basic", "blank": ""}.items():
        m[k] = (v, None)
    return m


BODY_IDS = [None, "cb", "cp", "pub", "ghost", "odd", "CP"]
BODY_SECRETS = [None, "", "=cb", "=cp", "wrong", "None", "=cb+", "null"]
QUERIES = [None, "cp-full", "pub-id", "cb-full", "cp-secret"]
TARGETS = ["client_credentials", "authorization_code", "refresh_token", "revoke"]


def cases(tier):
    out = []
    for name in SETS:
        for t in TARGETS:
            for h in headers_menu(SETS[name]):
                out.append(["grid", name, t, h])
    for name in SETS:
        for t in TARGETS:
            for who in ("cb", "cp"):
                out.append(["mutate", name, t, who])
    for t in TARGETS:
        for who in ("cb", "cp"):
            for base in ("Secret-1a", "p\u00e4ss w\u00f6rd+%41"):
                out.append(["near", base, t, who])
            out.append(["long", "", t, who])
        for who in ("cb", "cp", "pub"):
            out.append(["nearid", "", t, who])
    return out


def direct(ctx, target, who, right, sent, rid="c", sid="c"):
    """A single client `rid` with the secret `right`; the request presents sid and sent."""
    clock.set_now(clock.BASE)
    uri = ["https://shared.example/cb"]
    method = {"cb": "client_secret_basic", "cp": "client_secret_post", "pub": "none"}[who]
    cl = {rid: client(rid, right, method, uri)}
    w = World(ctx, clients=cl)
    w.codes["code-x"] = {"client": rid, "user": "u1", "redirect_uri": uri[0], "scopes": ["profile"], "challenge": CHALLENGE,
                         "method": "S256", "nonce": None, "auth_time": 0, "expires": clock.NOW + 600}
    w.refresh["rt-x"] = {"token": "rt-x", "client": rid, "user": "u1", "scopes": ["profile"], "expires": clock.NOW + 600}
    form, headers = target_form(target, "x"), {}
    if who == "cb":
        headers["Authorization"] = "Basic " + b64(f"{sid}:{sent}")
    else:
        form["client_id"] = sid
        if sent is not None:
            form["client_secret"] = sent
    resp = attempt(w, "revoke" if target == "revoke" else "token", make_request("POST", "/x", form=form, headers=headers))
    expect = rid == sid and right == sent and not (who == "pub" and target == "client_credentials")
    ctx.trace()
    info = dict(target=target, client=rid[:99], secret=right and right[:99], sent_id=sid[:99], sent_secret=sent and sent[:99], method=method,
                response=None if resp is None else [resp.status_code, repr(resp.body)])
    got = (resp is not None and resp.status_code == 200) if target == "revoke" else granted(resp)
    ctx.check(got == expect, "wrong credentials were accepted" if got else "right credentials were refused", **info)
    ctx.check(expect or not effects(w.log), "an unauthenticated request had an effect", **info)
    ctx.outcome("near:accepted" if got else f"near:{error_of(resp)}")


def run_near(ctx, kind, base, target, who):
    if kind == "near":
        for x in near(base):
            for right, sent in ((base, x), (x, base), (x, x)):
                direct(ctx, target, who, right, sent)
            ctx.state(kind, base, target, who, x)
    elif kind == "long":
        for n, a, b, c, d in long_pairs():
            for right, sent in ((a, a), (a, b), (c, d), (c, c), (a, a[:-1]), (a, a + "0"), (a[:-1], a)):
                direct(ctx, target, who, right, sent)
            if n <= 8192:
                for right, sent in ((a, b), (c, d), (a, a)):
                    direct(ctx, target, who, "s", "s", right, sent)
            ctx.state(kind, target, who, n)
    else:
        base = "Client-1a"
        secret = None if who == "pub" else "s"
        for x in near(base):
            if who == "cb" and ":" in x:
                continue
            for right, sent in ((base, x), (x, base), (x, x)):
                direct(ctx, target, who, secret, secret, right, sent)
            ctx.state(kind, target, who, x)


def build(ctx, secrets):
    clock.set_now(clock.BASE)
    uri = ["https://shared.example/cb"]
    cl = {"cb": client("cb", secrets["cb"], "client_secret_basic", uri),
          "cp": client("cp", secrets["cp"], "client_secret_post", uri),
          "pub": client("pub", None, "none", uri),
          "odd": client("odd", None, "client_secret_basic", uri)}
    w = World(ctx, clients=cl)
    for c in cl:  # every client owns a code and a refresh token, so that success is possible for each
        w.codes["code-" + c] = {"client": c, "user": "u1", "redirect_uri": uri[0], "scopes": ["profile"],
                                "challenge": CHALLENGE, "method": "S256", "nonce": None, "auth_time": 0,
                                "expires": clock.NOW + 600}
        w.refresh["rt-" + c] = {"token": "rt-" + c, "client": c, "user": "u1", "scopes": ["profile"],
                                "expires": clock.NOW + 600}
    return w


def target_form(target, owner):
    if target == "client_credentials":
        return {"grant_type": target, "scope": "profile"}
    if target == "authorization_code":
        return {"grant_type": target, "code": "code-" + owner, "redirect_uri": "https://shared.example/cb",
                "code_verifier": VERIFIER}
    if target == "refresh_token":
        return {"grant_type": target, "refresh_token": "rt-" + owner}
    return {"token": "rt-" + owner}


def judge(ctx, secrets, target, header, presented, bid, bsecret, query, **info):
    """Send one request per client that could be meant and compare with the expected client."""
    method = {"cb": "basic", "cp": "post", "pub": "none", "odd": "basic"}
    body_full = bool(bid and bsecret)
    care = True
    if presented and body_full:
        who = None
    elif presented:
        i, s = presented
        who = i if method.get(i) == "basic" and secrets.get(i) == s else None
        if who and bid and bid != who:
            care = False
    elif body_full:
        who = bid if method.get(bid) == "post" and secrets.get(bid) == bsecret else None
    elif bid and not bsecret:
        who = bid if method.get(bid) == "none" else None
        if who and target == "client_credentials":
            who = None
    else:
        who = None
    if header is not None and not presented and who:
        care = False
    owner = who or (presented and presented[0] in method and presented[0]) or (bid in method and bid) or "cb"
    w = build(ctx, secrets)
    form = target_form(target, owner)
    if bid is not None:
        form["client_id"] = bid
    if bsecret is not None:
        form["client_secret"] = bsecret
    q = {"cp-full": {"client_id": "cp", "client_secret": secrets["cp"]}, "pub-id": {"client_id": "pub"},
         "cb-full": {"client_id": "cb", "client_secret": secrets["cb"]}, "cp-secret": {"client_secret": secrets["cp"]},
         None: None}[query]
    req = make_request("POST", "/x", query=q, form=form, headers={} if header is None else {"Authorization": header})
    resp = attempt(w, "revoke" if target == "revoke" else "token", req)
    ctx.trace()
    ctx.state(target, header, bid, bsecret, query)
    info.update(target=target, header=header, body_id=bid, body_secret=bsecret, query=query, expected=who,
                response=None if resp is None else [resp.status_code, repr(resp.body)], effects=effects(w.log))
    served = {t["client"] for t in w.issued} | {r[0] for r in w.revoked}
    if who is None:
        ctx.check(not effects(w.log) and not served and not granted(resp), "an unauthenticated request had an effect", **info)
        ctx.check(resp is None or error_of(resp) == "invalid_client", "the answer is not invalid_client", **info)
        if presented and not bsecret and resp is not None:
            challenge = get_header(resp, "www-authenticate") or ""
            ctx.check(challenge.split(" ")[0].lower() == "basic", "refused Basic credentials are not challenged", headers=dict(resp.headers), **info)
        ctx.outcome("invalid_client")
        return
    if not care and resp is not None and error_of(resp) == "invalid_client":
        ctx.check(not effects(w.log), "a refused request had an effect", **info)
        ctx.outcome("dont_care_refused")
        return
    ok = (resp is not None and resp.status_code == 200) if target == "revoke" else granted(resp)
    ctx.check(ok, "a correctly authenticated request was not served", **info)
    ctx.check(served == {who}, "the request was handled as another client", served=sorted(served), **info)
    if target == "revoke":
        ctx.check(w.revoked == [(who, "rt-" + who, None)], "revocation was handled differently", revoked=w.revoked, **info)
    ctx.outcome("served:" + who)


def run_case(ctx, case):
    kind, name, target, what = case
    if kind in ("near", "long", "nearid"):
        return run_near(ctx, kind, name, target, what)
    secrets = SETS[name]
    if kind == "grid":
        header, presented = headers_menu(secrets)[what]
        for g in grid(bid=BODY_IDS, bsecret=BODY_SECRETS, query=QUERIES):
            s = g["bsecret"]
            if s in ("=cb", "=cp"):
                s = secrets[s[1:]]
            elif s == "=cb+":
                s = secrets["cb"] + "0"
            judge(ctx, secrets, target, header, presented, g["bid"], s, g["query"])
        return
    right = secrets[what]
    wrong = {right[:i] for i in range(len(right))} | {right + c for c in "x \n\0:"} | {c + right for c in "x :"}
    wrong |= {right[:i] + c + right[i + 1:] for i in range(len(right)) for c in "aA0:\u00e9"}
    wrong |= {right.upper(), right.lower(), right[::-1], right * 2, ref.b64(right.encode())}
    for s in sorted(wrong | {right}):
        if what == "cb":
            judge(ctx, secrets, target, "Basic " + b64("cb:" + s), ("cb", s) if s else None, None, None, None)
        else:
            judge(ctx, secrets, target, None, None, "cp", s, None)


hist.add(globals(), ["cb-secret", "cp-secret", "cb-swap", "cb-post", "cp-basic", "cb-public", "pub-secret", "cb-gone", "cp-gone", "pub-gone", "restore"],
         hist.pick("cc:", "code-plain:", "refresh:", "revoke:"), view=lambda v: (hist.served(v), v[1]))

coincide.add(globals(), coincide.authenticate)
