"""Makes /verif/seeded/<id>/ from bugs described in a Python file (list BUGS of dicts: id, property, needs,
breaks, edits=[(file, old, new)], demo=<python text>), confirming each in a scratch copy of /repo:
applies, builds, passes the repository's tests, demo 0 before and non-zero after, only original lines removed.
usage: plant.py bugs.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile, runpy

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "41b17ab"


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)


BUILD = ("make -C src clean >/dev/null 2>&1; make -C src -j8 CC=gcc lib libso libhpx && make -C src -j8 CC=gcc exe")


def demo(d, cwd):
    w = tempfile.mkdtemp(prefix="demo")      # the folder lies elsewhere when it counts
    for f in os.listdir(d):
        if not f.endswith((".diff", ".json")):
            shutil.copy(os.path.join(d, f), w)
    r = sh("bash %s/demo.sh" % w, cwd, timeout=300)
    shutil.rmtree(w)
    return r


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        top = "/tmp/plant-" + b["id"]
        shutil.rmtree(top, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", top])
        try:
            err = one(b, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)
        print(b["id"], b["property"], "OK" if not err else "REJECTED: " + err, flush=True)


def one(b, top):
    r = sh(BUILD, top)
    if r.returncode:
        return "base build " + r.stdout[-500:] + r.stderr[-500:]
    d = tempfile.mkdtemp(prefix="seed")
    shutil.copy(os.path.join(HERE, "demolib.py"), d)
    with open(d + "/demo.py", "w") as f:
        f.write("from demolib import *\n" + b["demo"])
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    r = demo(d, top)
    if r.returncode:
        return "demo fails on the unchanged tree: %d %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])
    for fn, old, new in b["edits"]:
        p = os.path.join(top, fn)
        t = open(p, "rb").read()
        if b"\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        old, new = old.encode(), new.encode()
        if t.count(old) != 1:
            return "edit matches %d times in %s: %r" % (t.count(old), fn, old)
        open(p, "wb").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff", "--no-color"], cwd=top, capture_output=True).stdout
    # removed lines are original
    import re
    rem = 0
    fn = None
    for l in diff.split(b"\n"):
        m = re.match(rb"^--- a/(.*)$", l)
        if m:
            fn = m.group(1).decode()
            bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", fn], top).stdout.split("\n")
        m = re.match(rb"^@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
            continue
        if fn and l[:1] == b"-" and l[:3] != b"---":
            if not bl[n - 1].lstrip("^").startswith(BASE):
                return "changes a line that is not original: %r" % l
            rem += 1
        if l[:1] in (b" ", b"-") and l[:3] != b"---":
            n += 1
    if not rem:
        return "no original line changed"
    r = sh(BUILD, top)
    if r.returncode:
        return "build " + r.stderr[-800:]
    if any("HealpixC" in e[0] for e in b["edits"]):
        # the repository's tests
        r = sh("gcc -O2 -o /tmp/planttest HealpixC/test_chealpix.c HealpixC/chealpix.c -lm && cd /tmp && ./planttest", top)
        base = sh("gcc -O2 -IHealpixC -o /tmp/planttest0 /repo/HealpixC/test_chealpix.c /repo/HealpixC/chealpix.c -lm && cd /tmp && ./planttest0", "/repo")
        if r.returncode != base.returncode or r.stdout != base.stdout:
            return "tests fail"
    r = demo(d, top)
    if r.returncode == 0:
        return "demo passes with the change"
    out = os.path.join(OUT, b["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(OUT, exist_ok=True)
    shutil.move(d, out)
    os.chmod(out, 0o755)
    open(out + "/patch.diff", "wb").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    print("   demo says:", (r.stdout + r.stderr).strip()[-150:])
    return None


main()
