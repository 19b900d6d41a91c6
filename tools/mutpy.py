#!/usr/bin/env python3
"""mutpy.py FILE [names]: like mut.py, for the Python checks. FILE defines IDS and MUTS."""
import sys, os, shutil, subprocess, re
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
names = sys.argv[2:]
def one(m):
    name, edits, want = m[0], m[1], set(m[2].split()); ids = m[3] if len(m) > 3 else ns["IDS"]
    d = "/tmp/mp." + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for x in ("moz_kinto_publisher", "workflow", "containers"):
        shutil.copytree("/repo/" + x, d + "/" + x)
    try:
        for f, a, b in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(a) < 1: return "%s: INAPPLICABLE %r" % (name, a[:60])
            open(p, "w").write(s.replace(a, b))
            compile(open(p).read(), p, "exec")
        got = set(); msgs = []
        for i in ids:
            r = subprocess.run([sys.executable, "-B", here + "/checker_py/check.py", i], capture_output=True, text=True, env=dict(os.environ, REPO=d, VERIF_OUT="/tmp/vv." + name))
            if r.returncode: got.add(i); msgs.append((r.stdout + r.stderr)[:400])
            if r.returncode not in (0, 1): msgs.append("RC %d" % r.returncode)
        ok = got == want if not want else want <= got
        return "%s: %s %s" % (name, "ok" if ok else "UNEXPECTED want=%s" % want, sorted(got)) + ("" if ok else "\n   " + "\n   ".join(msgs))
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree("/tmp/vv." + name, ignore_errors=True)
with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, [m for m in ns["MUTS"] if not names or m[0] in names]): print(r, flush=True)
