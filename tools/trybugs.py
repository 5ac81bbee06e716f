#!/usr/bin/env python3
"""trybugs.py file.py [id...]: puts changes (Q = [(id, property, file, old, new)...]) one at a time into a scratch
copy of /repo and runs the property's quick check.  No demonstration is made; misses are for reading."""
import os, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = runpy.run_path(sys.argv[1])["Q"]
only = sys.argv[2:]
vc, rp, bd = "/tmp/tryv", "/tmp/tryr", "/tmp/tryb"
shutil.rmtree(vc, ignore_errors=True)
os.makedirs(vc)
subprocess.check_call("tar -C %s --exclude=./build --exclude=./.git --exclude=./seeded -cf - . | tar -C %s -xf -" % (V, vc), shell=True)
for b, prop, fn, old, new in Q:
    if only and b not in only:
        continue
    shutil.rmtree(rp, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", rp])
    p = os.path.join(rp, fn)
    t = open(p, "rb").read()
    if b"\r\n" in t:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    old, new = old.encode(), new.encode()
    if t.count(old) != 1:
        print("%-24s %s EDIT MATCHES %d TIMES" % (b, prop, t.count(old)), flush=True)
        continue
    open(p, "wb").write(t.replace(old, new))
    env = dict(os.environ, VERIF_REPO=rp, VERIF_BUILD=bd, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    t0 = time.time()
    try:
        r = subprocess.run(["python3-vt", "checks/run.py", prop, "--tier", "quick"], cwd=vc, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1200)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = str(e.stdout), "timeout"
    ok = rc == 1 and ("VIOLATION property=%s " % prop) in out
    print("%-24s %s %s rc=%s %5.1fs" % (b, prop, "caught" if ok else "MISSED", rc, time.time() - t0), "" if ok else out[-300:], flush=True)
