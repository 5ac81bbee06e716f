#!/usr/bin/env python3
"""runseeded.py [-j N] [id...]: for each change in seeded/ makes a scratch copy of /repo, applies it and runs
its property's quick check there; prints which are caught.  Results go to /tmp/seedres/<id>.txt."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = "quick"
if "--tier" in args:
    i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir(V + "/seeded"))
os.makedirs("/tmp/seedres", exist_ok=True)
vc = "/tmp/seedverif"
shutil.rmtree(vc, ignore_errors=True)
os.makedirs(vc)
subprocess.check_call("tar -C %s --exclude=./build --exclude=./.git --exclude=./seeded --exclude=./.hypothesis -cf - . | tar -C %s -xf -" % (V, vc), shell=True)
for b in ids:
    meta = json.load(open(V + "/seeded/%s/meta.json" % b))
    d = "/tmp/seedrepo"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    subprocess.check_call(["git", "-C", d, "apply", V + "/seeded/%s/patch.diff" % b])
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/seedbuild", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
    t = time.time()
    try:
        r = subprocess.run(["python3-vt", "checks/run.py", meta["property"], "--tier", tier], cwd=vc, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1200)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = str(e.stdout), "timeout"
    open("/tmp/seedres/%s.txt" % b, "w").write(out)
    viol = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % meta["property"])]
    ok = rc == 1 and viol
    print("%-24s %s rc=%s %5.1fs" % (b, "CAUGHT" if ok else "MISSED", rc, time.time() - t), flush=True)
    shutil.rmtree("/tmp/seedbuild", ignore_errors=True) if rc == "timeout" else None
