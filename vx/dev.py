import sys, os, subprocess
sys.path.insert(0, os.path.dirname(__file__))
from assemble import Unit
u = Unit(os.environ.get("REPO", "/repo"), "/verif/proofs", sys.argv[1])
os.makedirs("/tmp/ve/u", exist_ok=True)
p = f"/tmp/ve/u/{sys.argv[1]}.rs"
open(p, "w").write(u.text())
print(u.log, u.mismatch, u.auto)
r = subprocess.run(["verus", p, "--triggers-mode", "silent"] + u.flags + sys.argv[2:], capture_output=True, text=True)
print(r.stdout[-3000:]); print(r.stderr[:9000])
