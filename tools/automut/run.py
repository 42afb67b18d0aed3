#!/usr/bin/env python3
"""Development aid: mutate files of a copy of /repo systematically and list what no check notices.

run.py LOG file:IDs [file:IDs ...]   e.g.  run.py /tmp/am.log snapshot.go:C01,C02
env: ONLY=LOG (only what survived there), EVERY=n (take every n-th mutant), FROM=k, CASES=n, WORKERS=n, REPO=/repo
"""
import json, os, shutil, subprocess, sys, threading, queue
log, jobs = sys.argv[1], sys.argv[2:]
every, frm, workers = int(os.environ.get("EVERY", "1")), int(os.environ.get("FROM", "0")), int(os.environ.get("WORKERS", "2"))
here = os.path.dirname(os.path.abspath(__file__))
sh = lambda c, **k: subprocess.run(c, shell=True, executable="/bin/bash", capture_output=True, text=True, **k)
sh(f"cd {here} && . /opt/vp/env.sh; go build -o /tmp/automut .")
q = queue.Queue()
only = None
if os.environ.get("ONLY"):
    only = {l.split("\t")[1] for l in open(os.environ["ONLY"]) if l.startswith("SURVIVES")}
done = set()
if os.path.exists(log):
    for l in open(log):
        done.add(l.split("\t")[1] if "\t" in l else "")
for j in jobs:
    f, ids = j.split(":")
    ms = [json.loads(l) for l in sh(f"/tmp/automut /repo/{f}").stdout.splitlines()]
    for n, m in list(enumerate(ms))[frm::every]:
        key = f"{f}:{m['line']}:{m['kind']}:{m['start']}"
        if key not in done and (only is None or key in only): q.put((f, ids.split(","), m, key))
lock = threading.Lock()
base = f"/dev/shm/am{os.getpid()}"
pkgs = dict(l.split() for l in open("/verif/harness/packages.txt"))
GO = "GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1 TZ=UTC"
def worker(w):
    d = f"{base}/w{w}"
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    os.makedirs(f"{base}/h{w}")
    sh(f"cp -r /verif/harness {base}/h{w}/harness && sed -i 's|=> /repo$|=> {d}|' {base}/h{w}/harness/go.mod")
    while True:
        try: f, ids, m, key = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(d, f); src = open(p, "rb").read()
        mut = src[:m["start"]] + m["new"].encode() + src[m["end"]:]
        open(p, "wb").write(mut)
        res = "SURVIVES"
        b = sh(". /opt/vp/env.sh 2>/dev/null; go build ./" + (os.path.dirname(f) or "."), cwd=d)
        if b.returncode: res = "nobuild"
        else:
            built = {}
            for i in ids:
                pkg = pkgs[i]
                if pkg not in built:
                    r = sh(f". /opt/vp/env.sh 2>/dev/null; {GO} go test -vet=off -c -o ../{pkg}.test ./{pkg}", cwd=f"{base}/h{w}/harness")
                    if r.returncode: res = f"RC3 {i} {r.stderr[-200:]!r}"; break
                    built[pkg] = 1
                env = {**os.environ, "VERIF_ROOT": "/verif", "VERIF_PROP": i, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick", "TZ": "UTC", "VERIF_NO_EVIDENCE": "1", "VERIF_SHRINK": "100ms", "TMPDIR": f"{base}/h{w}"}
                if os.environ.get("CASES"): env["VERIF_CASES"] = os.environ["CASES"]
                try:
                    pr = subprocess.Popen([f"{base}/h{w}/{pkg}.test"], env=env, cwd=f"{base}/h{w}", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                    out, _ = pr.communicate(timeout=300)
                except subprocess.TimeoutExpired:
                    os.killpg(pr.pid, 9); pr.communicate(); res = f"TIMEOUT {i}"; break
                for x in os.listdir(f"{base}/h{w}"):
                    if x.startswith("simdb"): shutil.rmtree(f"{base}/h{w}/{x}", ignore_errors=True)
                if pr.returncode == 1: res = f"caught {i}"; break
                if pr.returncode not in (0, 1): res = f"RC{pr.returncode} {i} {out[-200:]!r}"; break
        open(p, "wb").write(src)
        with lock, open(log, "a") as o: o.write(f"{res}\t{key}\t{m['old']!r} -> {m['new'][:120]!r}\n")
ts = [threading.Thread(target=worker, args=(w,)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base, ignore_errors=True)
