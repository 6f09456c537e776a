"""A worker that reports that a program written against the documented C API
does not compile or link with the generated header."""
import sys
exe, log = sys.argv[1:3]
text = [l for l in open(log, errors="replace").read().splitlines() if "error" in l or "undefined" in l][:6]
with open(exe, "w") as f:
    f.write(f"""#!/usr/bin/env python3
import sys, json
a = sys.argv
r = dict(cases=1, evals=1, nontrivial=0, nontrivial_hashes=[], counters={{}}, sets={{}}, samples=[], inconclusive=[],
         violations=[dict(sig="c-header", msg="a C program does not build with the generated header: " + {' | '.join(text)[:1500]!r}, idx=0)])
json.dump(r, open(a[a.index("--out") + 1], "w"))
sys.exit(1)
""")
import os
os.chmod(exe, 0o755)
