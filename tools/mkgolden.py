"""Makes data/golden.json from /repo's tree: values and stored objects that
later versions must agree with.  Run once, at the pinned commit."""
import json
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import tk       # noqa: E402

rng = random.Random("golden")
s = tk.Session("lock", name="golden")
out = {"prp": [], "prpctx": []}
s.do("wrapper.new", s="w", key=s.key(32, "77" * 32))
for j in range(4):
    k = rng.randbytes(48).hex() if j else bytes(range(48)).hex()
    s.do("prp.new", s="p", key=s.key(48, k))
    for n in (1, 2, 3, 4, 7, 8, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 1000):
        x = rng.randbytes(n).hex()
        y = s.do("prp.encstr", s="p", m=x)["out"]
        out["prp"].append({"key": k, "x": x, "y": y})
    blob = s.do("wrapper.wrap", s="w", ty="prp", t="prp", n=32, o="p")["out"]
    out["prpctx"].append({"key": k, "wrapper": "77" * 32, "blob": blob})
s.close()
with open(os.path.join(V, "data", "golden.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
