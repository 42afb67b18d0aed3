#!/usr/bin/env python3
"""Development aid: apply textual mutations to a copy of /repo and run checks against it.

mutate.py FILE.py: FILE.py defines MUTS = [(name, [(file, old, new), ...], "C01 C02"), ...]
"""
import os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
muts = runpy.run_path(sys.argv[1])["MUTS"]
only = sys.argv[2:]
def one(m):
    name, edits, ids = m
    d = f"/tmp/mut/{name}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    for f, old, new in edits:
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) < 1: return f"{name}: NOT FOUND in {f}: {old[:50]!r}"
        open(p, "w").write(s.replace(old, new, 1))
    b = subprocess.run(". /opt/vp/env.sh 2>/dev/null; go build ./...", shell=True, cwd=d, capture_output=True, text=True, executable="/bin/bash")
    if b.returncode: return f"{name}: DOES NOT BUILD {b.stderr[-300:]}"
    out = []
    for i in ids.split():
        r = subprocess.run(["/verif/check.sh", i], env={**os.environ, "VERIF_REPO": d, "VERIF_NO_EVIDENCE": "1"}, capture_output=True, text=True)
        ls = [l for l in r.stdout.splitlines() if not l.startswith("scenario")]
        msg = ""
        if r.returncode:
            k = [n for n, l in enumerate(ls) if l.startswith("VIOLATION")]
            msg = ls[k[-1]-1][:150] if k else "?? rc=%d %s" % (r.returncode, (ls or [""])[-1][:200])
        out.append(f"{i}: {'caught  '+msg if r.returncode==1 else 'MISSED' if r.returncode==0 else 'RC %d %s'%(r.returncode,msg)}")
    shutil.rmtree(d, ignore_errors=True)
    return f"{name}: " + " | ".join(out)
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, [m for m in muts if not only or m[0] in only]): print(r, flush=True)
