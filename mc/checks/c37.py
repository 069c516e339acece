"""C37: every request is decided on the current data."""
import itertools

from mc import hist

ID = "C37"
ISOLATE = True
ASSUMPTIONS = ["the oracle is a provider of the same configuration created at that moment over a copy of the data; that its answers are right is "
               "decided by the other properties",
               "new random authorization codes are compared by the records stored under them"]
CH = list(hist.CHANGES)
CORE = ["cb-secret", "cb-post", "cb-alt-only", "cb-no-code", "cb-fewer-scopes", "cb-gone", "restore", "user-gone", "code-scopes", "token-scopes",
        "codes-expired", "new-key"]
BOUNDS = {
    "quick": f"all histories of <=2 of {len(CH)} changes (registrations, users, user info, stored codes and tokens, keys, clock) with the OpenID flow, of 1 without, and of 3 over "
             f"{len(CORE)} of them; {len(hist.REQUESTS)} requests of all flows before and after each change; storage handing out copies or shared objects",
    "thorough": f"as quick, histories of 3 over all {len(CH)} changes, and of 4 over {len(CORE)}",
}


def cases(tier):
    out = [["two", c, oidc] for c in CH for oidc in (False, True)]
    out += [["three", a, b] for a, b in itertools.product(CORE, repeat=2)]
    if tier == "thorough":
        out += [["three-all", a, b] for a, b in itertools.product(CH, repeat=2)]
        out += [["four", a, b, c] for a, b, c in itertools.product(CORE, repeat=3)]
    return out


def run_case(ctx, case):
    kind = case[0]
    names = list(hist.REQUESTS)
    if kind == "two":
        hist.explore(ctx, hist.sequences(CH, 2 if case[2] else 1, case[1]), names, oidc=case[2])
    elif kind == "three":
        # fewer requests: one of each kind and client that the changes can affect
        hist.explore(ctx, [(case[1], case[2], c) for c in CORE], [n for n in names if ":secret-p" not in n and ":secret-u" not in n], shared=(False,))
    elif kind == "three-all":
        hist.explore(ctx, [(case[1], case[2], c) for c in CH], [n for n in names if ":cb:" in n], shared=(False,))
    else:
        hist.explore(ctx, [(*case[1:], c) for c in CORE], [n for n in names if ":cb:" in n], shared=(False,))
