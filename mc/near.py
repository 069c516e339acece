"""Strings that are easily mistaken for another one: every comparison that is not exact confuses v with one of near(v)."""
from urllib.parse import quote, urlsplit, urlunsplit

from mc import consts

FULLWIDTH = {c: chr(ord(c) + 0xFEE0) for c in map(chr, range(0x21, 0x7F))}
HOMOGLYPH = {"a": "\u0430", "c": "\u0441", "e": "\u0435", "i": "\u0456", "o": "\u043e", "p": "\u0440", "s": "\u017f", "k": "\u212a", "b": "\u0184"}
BLANKS = [" ", "\t", "\n", "\r\n", "\x00", "\x0b", "\xa0", "\u200b", "\ufeff", "\u3000"]
TAILS = ["/", "?", "#", "=", "==", ".", "*", "%", "%00", "%20", "+", "-", "_", ",", ";", ":", "0", "x", "A", "\\", "|", "&", "&x", "~", "'", '"']


def _near(v):
    yield v.upper()
    yield v.lower()
    yield v.swapcase()
    yield v.title()
    yield v.capitalize()
    for i, ch in enumerate(v):
        yield v[:i] + ch.swapcase() + v[i + 1:]
    for b in BLANKS:
        yield b + v
        yield v + b
        yield b + v + b
        if len(v) > 1:
            yield v[:1] + b + v[1:]
    for i in range(1, len(v)):
        yield v[:i]
        yield v[i:]
    for i in range(len(v)):
        yield v[:i] + v[i + 1:]
        yield v[:i] + ("Z" if v[i] != "Z" else "Y") + v[i + 1:]
        if i and v[i] != v[i - 1]:
            yield v[:i - 1] + v[i] + v[i - 1] + v[i + 1:]
    for t in TAILS:
        yield v + t
        yield t + v
    yield v + v[-1:]
    yield v + v
    yield v[::-1]
    for sep in (" ", ",", ";", "|", "\n", "&"):
        yield v + sep + "x"
        yield "x" + sep + v
        yield v + sep + v
    for q in ('"%s"', "'%s'", "(%s)", "[%s]", "<%s>", "{%s}", "['%s']", "b'%s'"):
        yield q % v
    yield "".join("%%%02X" % b for b in v.encode())
    for i in (0, len(v) // 2, len(v) - 1):
        yield v[:i] + "".join("%%%02X" % b for b in v[i].encode()) + v[i + 1:]
        yield v[:i] + "".join("%%%02x" % b for b in v[i].encode()) + v[i + 1:]
        yield v[:i] + "*" + v[i + 1:]
        yield v[:i] + "?" + v[i + 1:]
        yield v[:i] + "." + v[i + 1:]
    yield quote(v, safe="")
    yield quote(quote(v, safe=""), safe="")
    yield v.replace("-", "_")
    yield v.replace("_", "-")
    yield v.replace("-", "").replace("_", "")
    for table in (FULLWIDTH, HOMOGLYPH):
        for i, ch in enumerate(v):
            if ch in table:
                yield v[:i] + table[ch] + v[i + 1:]
    yield v + "\u0301"
    yield v[:1] + "\u200d" + v[1:]
    yield "*"
    yield ".*"
    yield "%"
    yield "None"
    yield "null"
    yield "undefined"
    yield "0"
    yield "true"
    yield from consts.like(v)


def near(v):
    """Distinct non-empty strings that differ from v."""
    seen = {v, ""}
    for x in _near(v):
        if x not in seen:
            seen.add(x)
            yield x


def _uris(u):
    p = urlsplit(u)

    def make(scheme=None, netloc=None, path=None, query=None, fragment=None):
        return urlunsplit((scheme if scheme is not None else p.scheme, netloc if netloc is not None else p.netloc,
                           path if path is not None else p.path, query if query is not None else p.query,
                           fragment if fragment is not None else p.fragment))
    host = p.hostname or ""
    yield make(scheme="http" if p.scheme == "https" else "https")
    yield make(scheme=p.scheme.upper()).replace(p.scheme + ":", p.scheme.upper() + ":")
    yield u.replace(p.scheme, p.scheme.upper(), 1)
    yield "javascript:" + u
    yield u.split(":", 1)[1]
    yield u.split("//", 1)[-1]
    for port in ("80", "443", "8080", "8443", "9090", "1", ""):
        yield make(netloc=f"{host}:{port}")
    for n in (host, host + ".", "www." + host, "evil." + host, host + ".evil.example", "user@" + p.netloc, "user:pw@" + p.netloc,
              p.netloc + "@evil.example", "evil.example", host.upper(), "localhost", "127.0.0.1", "[::1]", "evil" + host, host[1:],
              host.replace(".", "-"), host.replace(".", "\u3002"), "127.0.0.2", "127.1", "2130706433", "evil.example\\@" + p.netloc,
              "evil.example#@" + p.netloc, "evil.example/" + p.netloc):
        yield make(netloc=n)
        if p.port:
            yield make(netloc=f"{n}:{p.port}")
    for path in (p.path + "/", p.path.rstrip("/"), p.path + "//", "/" + p.path, "/." + p.path, p.path + "/.", p.path + "/..", p.path + "/../x",
                 p.path + "/../" + p.path.rsplit("/", 1)[-1], "/x/.." + p.path, "/%2e%2e" + p.path, p.path + "/x", p.path + "x", p.path + ";x", p.path + ";", "",
                 "/", p.path.upper(), p.path + "%2F", p.path + "%2fx", p.path + "\\", p.path + "\\x", p.path + "%00", p.path + ".", p.path + "..",
                 p.path + "*", p.path[:-1], p.path[:-1] + "%%%02x" % ord(p.path[-1:] or "/"), p.path[:-1] + "%%%02X" % ord(p.path[-1:] or "/"),
                 p.path.replace("/", "//"), p.path.replace("/", "\\"), p.path + "@evil.example", p.path + "/evil.example"):
        yield make(path=path)
    for q in ("x=1", p.query + "&x=1" if p.query else "y", "", "code=x", "state=x", "error=x", "redirect_uri=https://evil.example", p.query.upper(), p.query + "&", "&" + p.query,
              p.query[:-1], p.query + "2", "&".join(reversed(p.query.split("&"))), "&".join(p.query.split("&")[:1]), p.query + "&" + p.query):
        yield make(query=q)
    yield u + "?"
    yield u + "#"
    yield u + "&"
    yield u + "#frag"
    yield u + "#https://evil.example/"
    yield u.split("#")[0]
    yield u.split("?")[0]
    yield u + "%23"
    yield u + "%3Fx=1"
    yield "https://evil.example/?u=" + u
    yield "https://evil.example/#" + u
    yield "https://evil.example/" + u
    yield "//evil.example/"


def near_uri(u):
    """Distinct URIs that differ from u."""
    seen = {u, ""}
    for gen in (_uris(u), _near(u)):
        for x in gen:
            if x not in seen:
                seen.add(x)
                yield x


LENGTHS = [1, 2, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 36, 40, 48, 50, 63, 64, 65, 71, 72, 73, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300, 499, 500,
           511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 32768, 65535, 65536, 65537, 100000]
LENGTHS = sorted({*LENGTHS, *consts.around(300000)})


def text(n, salt=0):
    a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
    return "".join(a[(i * 7 + i // 62 + salt * 5) % 62] for i in range(n))


def long_pairs(limit=1 << 20):
    """(value, value that differs only after n characters, value that differs only before the last n characters)."""
    for n in LENGTHS:
        if n > limit:
            break
        t = text(n)
        yield n, t + "1", t + "2", "1" + t, "2" + t
