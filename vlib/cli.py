"""Runs sat_skymap / sat_visibility built from /repo's working tree and decodes their answer."""
import json, os, subprocess

from . import build
from .runner import Violation

_dirs = {}


def prog_dir(variant="plain"):
    if variant not in _dirs:
        _dirs[variant] = os.path.join(build.project(variant), "src")
    return _dirs[variant]


def prepare():
    prog_dir("plain")
    build.reflib()


def prepare_asan():
    prog_dir("asan")
    build.reflib()


class Run:
    __slots__ = ("rc", "out", "err", "argv", "json")

    def __init__(self, rc, out, err, argv):
        self.rc, self.out, self.err, self.argv, self.json = rc, out, err, argv, None


def b(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")


ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0:exitcode=78"}


def raw(prog, args, cwd, variant="plain", timeout=40, stdin=subprocess.DEVNULL):
    """args: list of str (surrogateescape) or bytes, without NUL."""
    argv = [b(os.path.join(prog_dir(variant), prog))] + [b(a) for a in args]
    p = subprocess.Popen(argv, cwd=cwd, env=ENV, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, close_fds=False)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Violation("%s %r did not end within %d s" % (prog, [str(a) for a in args], timeout))
    r = Run(p.returncode, out, err, args)
    if r.rc < 0 or r.rc in (77, 78) or b"AddressSanitizer" in err or b"runtime error" in err:
        raise Violation("%s %r was ended by signal or sanitizer (exit %d): %s" % (prog, [str(a) for a in args], r.rc, err.decode(errors="replace")[-1500:]))
    return r


def _pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise Violation("member %r given twice in one JSON object" % k)
        d[k] = v
    return d


def _const(x):
    raise ValueError("%s is not JSON" % x)


def parse(out, what=""):
    """Exactly one JSON object on standard output."""
    s = out.decode("utf-8", "surrogateescape")
    try:
        j = json.loads(s, object_pairs_hook=_pairs, parse_constant=_const)
    except ValueError as e:
        raise Violation("%s: standard output is not one JSON document: %s: %s" % (what, e, s[:600] + ("..." + s[-300:] if len(s) > 900 else "")))
    if not isinstance(j, dict):
        raise Violation("%s: standard output is not a JSON object: %s" % (what, s[:300]))
    return j


def run(prog, args, cwd, variant="plain", timeout=40):
    r = raw(prog, args, cwd, variant, timeout)
    r.json = parse(r.out, "%s %s" % (prog, " ".join(str(a) for a in args)))
    return r


def ok(prog, args, cwd):
    """A run that has to succeed."""
    r = run(prog, args, cwd)
    if r.rc != 0 or r.json["status"] != 0:
        raise Violation("%s %s: exit %d, status %s, errmsg %r" % (prog, " ".join(str(a) for a in args), r.rc, r.json.get("status"), r.json.get("errmsg")))
    return r.json


def write(path, data):
    with open(path, "wb") as f:
        f.write(b(data))
