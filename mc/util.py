"""Helpers shared by the checks."""
import itertools
from urllib.parse import parse_qsl, urlsplit

from . import clock
from .world import Client, body, granted, location

EFFECTS = {"save_authorization_code", "delete_authorization_code", "create_access_token", "create_refresh_token",
           "revoke_token"}
OAUTH_ERRORS = {"invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type",
                "invalid_scope", "access_denied", "unsupported_response_type", "server_error",
                "temporarily_unavailable", "unsupported_token_type"}
TZS = ("UTC", "AAA+12", "BBB-14")


# expiration instants: ends of days, months, leap and other years, changes of summer time, limits of number formats, the ends of the calendar
ENDS = [1700006400.0, 1701388800.0, 1704067200.0, 1709164800.0, 1709251200.0, 1740787200.0, 1710054000.0, 1730613600.0, 1711846800.0, 1729990800.0, 1700000000.25,
        2147483647.0, 2147483648.0, 4294967295.5, 4294967296.0, 951782400.0, 946684800.0, 999999999.0, 1000000000.0, 4102444800.0, 253402300799.0, 86400.0, 3600.0]
STEPS = [0.25, 0.5, 1, 59, 60, 3599, 3600, 7200, 43200, 50400, 86399, 86400, 86401, 172800, 2592000, 31536000, 31622400, 10 ** 9]
ZONES = ("UTC", "AAA+12", "BBB-14", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NST3:30NDT,M3.2.0,M11.1.0")


def instants():
    """(expiration, current time, whether it has expired) for every end of validity and distance to it."""
    for end in ENDS:
        for step in [0, *STEPS, *(-s for s in STEPS)]:
            now = end + step
            if 0 <= now < 253402300800:
                yield end, now, now >= end


def grid(**dims):
    """All combinations of the dimensions, as dictionaries."""
    names = list(dims)
    for combo in itertools.product(*dims.values()):
        yield dict(zip(names, combo))


def attempt(w, endpoint, req, label="r"):
    """The response, or None if the endpoint raised (whether it may is C10's question)."""
    try:
        return w.send(endpoint, req, label)
    except Exception:
        return None


def added_pairs(loc, uri):
    """The (name, value) pairs that `loc` adds to the query of `uri`, or None if loc is not on that URI."""
    if loc is None:
        return None
    a, b = urlsplit(loc), urlsplit(uri)
    if (a.scheme, a.netloc, a.path, a.fragment) != (b.scheme, b.netloc, b.path, b.fragment):
        return None
    try:
        parse_qsl(b.query, keep_blank_values=True, strict_parsing=bool(b.query))
        strict = bool(a.query) and not uri.endswith("?")
    except ValueError:
        strict = False  # the registered query is not made of pairs
    try:
        got = parse_qsl(a.query, keep_blank_values=True, strict_parsing=strict, errors="strict")
    except ValueError:
        return None
    own = parse_qsl(b.query, keep_blank_values=True)
    if got[:len(own)] != own:
        return None
    return got[len(own):]


def answer_pairs(ctx, loc, uris):
    """(uri, dict) of a redirect to one of the URIs; the one with the longest own query wins."""
    best = None
    for uri in uris:
        pairs = added_pairs(loc, uri)
        if pairs is not None and (best is None or len(uri) > len(best[0])):
            best = (uri, pairs)
    return best


def scope_list(resp):
    s = body(resp).get("scope")
    return None if s is None else s.split()


def client(id, secret, method, uris, grants=("authorization_code", "client_credentials", "refresh_token"),
           responses=("code",), scopes=("openid", "profile", "email", "admin")):
    return Client(id, secret, method, uris, grants, responses, scopes)


def effects(log):
    return [entry for entry in log if entry[1] in EFFECTS]


__all__ = ["EFFECTS", "OAUTH_ERRORS", "TZS", "grid", "attempt", "added_pairs", "answer_pairs", "scope_list", "client",
           "effects", "clock", "granted", "location"]
