"""gen_consts.py: records the constants of /repo as it is (see mc/consts.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo/src"]
path = os.path.join(ROOT, "mc/consts_base.json")
if not os.path.exists(path):
    open(path, "w").write('{"texts": [], "numbers": []}')
from mc import consts  # noqa: E402

texts, numbers = consts.constants("/repo/src/psion")
json.dump({"texts": sorted(texts), "numbers": sorted(numbers)}, open(path, "w"), indent=0)
print(len(texts), len(numbers))
