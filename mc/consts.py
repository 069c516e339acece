"""Constants of the code under test.

A change that treats one value specially (a length, a name, a prefix, a number of things) has to name that value. Every constant of the code that the
tree these checks were written for does not have is therefore a boundary of the enumerations: lengths and counts around every such number, and
values made of every such text, are enumerated in addition to the fixed ones. On the unchanged tree there is none; a rewrite that brings in new
constants merely makes the exploration larger, because what is judged is the behaviour alone.
"""
import json
import os

import psion

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "consts_base.json")
TEXTS, NUMBERS = 24, 16


def constants(root=None):
    """All (texts, numbers) in the compiled code, documentation left out."""
    texts, numbers = set(), set()

    def add(v):
        if isinstance(v, bool) or v is None or v is Ellipsis:
            return
        if isinstance(v, str):
            texts.add(v)
        elif isinstance(v, bytes):
            texts.add(v.decode("latin-1"))
        elif isinstance(v, (int, float)) and v == v and abs(v) < 1 << 62:
            numbers.add(int(v))
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                add(x)
        elif hasattr(v, "co_consts"):
            for x in v.co_consts:
                add(x)

    root = root or os.path.dirname(os.path.abspath(psion.__file__))
    for d, _, files in os.walk(root):
        for f in files:
            if f.endswith(".py"):
                try:
                    with open(os.path.join(d, f), encoding="utf-8") as src:
                        add(compile(src.read(), f, "exec", dont_inherit=True, optimize=2))
                except (SyntaxError, ValueError, OSError):
                    pass  # the import of the module decides
    return texts, numbers


def load():
    texts, numbers = constants()
    with open(BASE) as f:
        base = json.load(f)
    old = set(base["texts"])
    new = sorted(texts - old - {""}, key=lambda t: (len(t), t))
    ints = sorted({abs(n) for n in numbers} - {abs(n) for n in base["numbers"]})
    return tuple(t for t in new if len(t) <= 60 and t.isprintable())[:TEXTS], tuple(ints)[:NUMBERS]


NEW_TEXTS, NEW_NUMBERS = load()


def around(limit, least=1):
    """Numbers at and around the new numbers, up to limit."""
    return sorted({m for n in NEW_NUMBERS for m in (n - 1, n, n + 1, n + 2, n + 3) if least <= m <= limit})


def like(v):
    """Values made of v and the new texts."""
    for k, t in enumerate(NEW_TEXTS):
        yield t
        yield v + t
        yield t + v
        yield t.lower()
        yield t.upper()
        if len(v) <= 80 and k < 8:
            for i in range(len(v)):
                yield v[:i] + t + v[i:]
                yield v[:i] + t + v[i + 1:]
