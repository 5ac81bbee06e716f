"""Builds the project (a copy of /repo's working tree) and the harnesses, outside /repo.

Everything goes to /verif/build/<hash of the sources>/<variant>/ so that a change of any source file is
always rebuilt and an unchanged tree is reused.  The project's own Makefiles do the building."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
KEEP = 6

SRC_EXT = (".c", ".h", ".inc", ".def")


def _sources():
    out = []
    for d in ("src", "HealpixC"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith(SRC_EXT) or f == "Makefile" or f.endswith(".mk"):
                    out.append(os.path.join(root, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _run(cmd, cwd=None, env=None):
    e = dict(os.environ)
    e["LC_ALL"] = "C"
    for k in ("CFLAGS", "LDFLAGS", "MAKEFLAGS", "MAKELEVEL"):
        e.pop(k, None)
    if env:
        e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(3)
    return r.stdout


def _copy_tree(dst):
    os.makedirs(dst)
    for p in _sources():
        q = os.path.join(dst, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)


SAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=float-cast-overflow"
VARIANTS = {
    # project flags as in its Makefile; HealpixC with fitsio for the FITS property
    "plain": dict(cc="gcc", cflags=None, opt="-O2 -fPIC"),
    "asan": dict(cc="gcc", cflags="-Wall -fPIC -I../HealpixC " + SAN, opt="-fPIC " + SAN, ldlibs="-L../HealpixC -lchealpix libsatskymap.a -lm " + SAN),
    "fuzz": dict(cc="clang", cflags="-fPIC -I../HealpixC -fsanitize=fuzzer-no-link " + SAN, opt="-fPIC " + SAN, libonly=True),
}


def _prune():
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("t-")]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-KEEP]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def project(variant="plain"):
    """Returns the directory holding src/ and HealpixC/ built from /repo's working tree."""
    v = VARIANTS[variant]
    top = os.path.join(BUILD, "t-" + tree_hash())
    dst = os.path.join(top, variant)
    with Lock(os.path.join(BUILD, "lock-" + variant)):
        if os.path.isdir(dst):
            os.utime(top)
            return dst
        tmp = dst + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(top, exist_ok=True)
        _copy_tree(tmp)
        src, hp = os.path.join(tmp, "src"), os.path.join(tmp, "HealpixC")
        args = ["CC=" + v["cc"]]
        if v["cflags"]:
            args.append("CFLAGS=" + v["cflags"])
        # program builds: chealpix without fitsio, exactly like the project's Makefile does it
        _run(["make", "WITHOUT_CFITSIO=1", "CC=" + v["cc"], "OPT=" + v["opt"]], cwd=hp)
        _run(["make", "-j8"] + args + ["lib"], cwd=src)
        if not v.get("libonly"):
            ex = list(args)
            if v.get("ldlibs"):
                ex.append("LDLIBS=" + v["ldlibs"])
            _run(["make", "-j8"] + ex + ["exe"], cwd=src)
        # a second chealpix, with fitsio, for the FITS property
        if variant in ("plain", "asan"):
            hf = os.path.join(tmp, "HealpixF")
            shutil.copytree(hp, hf, ignore=shutil.ignore_patterns("*.o", "*.a"))
            _run(["make", "CC=" + v["cc"], "OPT=" + v["opt"]], cwd=hf)
        os.rename(tmp, dst)
    _prune()
    return dst


def harness(name, variant="plain", extra_src=(), fits=False, cxxflags="-O1", ldflags="", compiler="g++", ext=".cpp", tag="", prog=None):
    """Compiles /verif/harness/<name>.cpp against the built project; returns the executable's path."""
    proj = project(variant)
    hd = os.path.join(VERIF, "harness")
    srcs = [os.path.join(hd, name + ext)] + [os.path.join(hd, s) for s in extra_src]
    deps = srcs + sorted(glob.glob(os.path.join(hd, "*.h"))) + sorted(glob.glob(os.path.join(hd, "*.hpp")))
    if prog:
        deps.append(os.path.join(hd, "fuzz_main.c"))
    name += tag
    key = _hash_files(deps, cxxflags + ldflags + compiler)
    hdir = os.path.join(os.path.dirname(proj), "h-" + variant)
    exe = os.path.join(hdir, name + "-" + key)
    with Lock(os.path.join(BUILD, "lock-h-" + name)):
        if os.path.exists(exe):
            return exe
        os.makedirs(hdir, exist_ok=True)
        hpx = os.path.join(proj, "HealpixF" if fits else "HealpixC")
        cmd = [compiler, "-std=c++17" if ext == ".cpp" else "-std=gnu17"] + cxxflags.split() + ["-I" + os.path.join(proj, "src"), "-I" + hpx, "-I" + hd] + srcs \
            + [os.path.join(proj, "src", "libsatskymap.a"), os.path.join(hpx, "libchealpix.a")] \
            + (["-lcfitsio"] if fits else []) + ldflags.split() + ["-lm", "-o", exe + ".tmp"]
        if prog:
            # the program's main() as an object of its own, its variables in sections that the harness can find
            o = exe + ".o"
            _run([compiler, "-std=gnu17"] + cxxflags.replace("-fsanitize=fuzzer,", "-fsanitize=fuzzer-no-link,").split() +
                 ["-I" + os.path.join(proj, "src"), "-I" + hpx, "-c", os.path.join(hd, "fuzz_main.c"), "-o", o, '-DPROGFILE="%s.c"' % prog, "-w"])
            ren = []
            for w in _run(["objdump", "-h", "-w", o]).split():
                if w.startswith((".bss", ".data.")) and not w.startswith(".data.rel.ro"):
                    ren += ["--rename-section", "%s=%s" % (w, "progbss" if w[1] == "b" else "progdata")]
            _run(["objcopy"] + ren + [o])
            cmd.insert(1, o)
        _run(cmd)
        os.rename(exe + ".tmp", exe)
    return exe


def reflib():
    """The independent reference propagator as a shared library (does not depend on /repo)."""
    src = os.path.join(VERIF, "harness", "refsgp4.cpp")
    deps = [src] + sorted(glob.glob(os.path.join(VERIF, "harness", "refsgp4.h*")))
    so = os.path.join(BUILD, "refsgp4-%s.so" % _hash_files(deps))
    with Lock(os.path.join(BUILD, "lock-ref")):
        if not os.path.exists(so):
            _run(["g++", "-std=c++17", "-O2", "-fPIC", "-shared", src, "-o", so + ".tmp", "-lm"])
            os.rename(so + ".tmp", so)
    return so


def clocklib():
    """LD_PRELOAD library that presets the clock."""
    src = os.path.join(VERIF, "harness", "clock.c")
    so = os.path.join(BUILD, "clock-%s.so" % _hash_files([src]))
    with Lock(os.path.join(BUILD, "lock-clock")):
        if not os.path.exists(so):
            _run(["gcc", "-O1", "-fPIC", "-shared", src, "-o", so + ".tmp"])
            os.rename(so + ".tmp", so)
    return so


def objlib():
    """libsatskymap + chealpix as one shared object, for calling the library from Python."""
    proj = project("plain")
    so = os.path.join(proj, "all.so")
    with Lock(os.path.join(BUILD, "lock-obj")):
        if not os.path.exists(so):
            _run(["gcc", "-shared", "-o", so + ".tmp", "-Wl,--whole-archive", os.path.join(proj, "src", "libsatskymap.a"),
                  os.path.join(proj, "HealpixC", "libchealpix.a"), "-Wl,--no-whole-archive", "-lm"])
            os.rename(so + ".tmp", so)
    return so


if __name__ == "__main__":
    t = time.time()
    print(project("plain"), project("asan"), project("fuzz"), time.time() - t)
