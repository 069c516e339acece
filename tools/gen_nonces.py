"""Writes fixtures/nonces.json: ECDSA nonces whose R has leading zero octets (k < 200000, increasing)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import ref  # noqa: E402

out = {}
for name, c in ref.CURVES.items():
    base = 1 if c.size == 66 else 0  # the top octet of P-521 has one bit only
    pt, one, two = None, [], []
    for k in range(1, 200000):
        pt = ref.ec_add(c, pt, (c.gx, c.gy))
        z = c.size - ((pt[0] % c.n).bit_length() + 7) // 8 - base
        if z >= 2:
            two.append(k)
        elif z == 1:
            one.append(k)
    out[name] = {"1": one, "2": two}
    print(name, len(one), len(two))
json.dump(out, open(os.path.join(ROOT, "fixtures", "nonces.json"), "w"))
