"""The element lines that come with the programs, read by slicing columns."""
import ctypes, glob, math, os
from vlib import build
from vlib.runner import GenPart, Violation


class Tle(ctypes.Structure):
    _fields_ = [(n, ctypes.c_double) for n in ("epoch", "xndt2o", "xndd6o", "bstar", "xincl", "xnodeo", "eo", "omegao", "xmo", "xno")] + \
               [(n, ctypes.c_int) for n in ("norad", "bulletin", "rev")] + [("cls", ctypes.c_char), ("et", ctypes.c_char), ("desig", ctypes.c_char * 9)]


_lib = None
_pairs = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(build.objlib())
    return _lib


def pairs():
    global _pairs
    if _pairs is None:
        _pairs = []
        for f in [os.path.join(build.REPO, "src", n) for n in ("stations.txt", "default.tle")] + sorted(glob.glob(os.path.join(build.REPO, "scripts", "*.txt"))):
            if not os.path.exists(f):
                continue
            L = open(f, "rb").read().split(b"\n")
            for a, b in zip(L, L[1:]):
                a, b = a.rstrip(b"\r "), b.rstrip(b"\r ")
                if a[:2] == b"1 " and b[:2] == b"2 " and len(a) == 69 and len(b) == 69 and cs(a) == a[68] - 48 and cs(b) == b[68] - 48 and a[2:7].strip().isdigit():
                    _pairs.append((os.path.basename(f), a.decode(), b.decode()))
    return _pairs


def cs(l):
    return sum(c - 48 if 48 <= c <= 57 else c == 45 for c in l[:68]) % 10


def prepare():
    lib()


def sci(x):
    m = x[:6].strip()
    return 0.0 if not m else int(m) * 1e-5 * 10.0 ** int((x[6:8].strip() or "0").replace(" ", "0"))


def gen(d):
    p = pairs()
    return dict(k=d.i(0, len(p) - 1), change=None if d.flag() else [d.i(0, 1), d.i(2, 68), d.i(1, 9)])


def check(case, rec, scratch):
    p = pairs()
    name, a, b = p[case["k"] % len(p)]
    l = [a, b]
    want = 0
    c = case["change"]
    if c:
        w, k, dlt = c
        while k < 68 and not l[w][k].isdigit():
            k += 1
        l[w] = l[w][:k] + str((int(l[w][k]) + dlt) % 10) + l[w][k + 1:]
        want = 1 << w
    s = Tle()
    r = lib().parse_elements(l[0].encode(), l[1].encode(), ctypes.byref(s))
    if r != want:
        raise Violation("%s: parse_elements gives %d, expected %d\n%s\n%s" % (name, r, want, *l))
    a, b = l
    yy = int(a[18:20])
    y = yy + (2000 if yy < 57 else 1900)
    exp = dict(epoch=2415019.5 + sum(366 if t % 4 == 0 and t != 1900 else 365 for t in range(1900, y)) + int(a[20:23]) + int(a[24:32]) * 1e-8,
               norad=int(a[2:7]), bulletin=int(a[64:68]), rev=int(b[63:68].strip() or 0), cls=a[7].encode(), et=a[62].encode(), desig=a[9:17].encode())
    tol = dict(epoch=1.2e-9 / 2.4e6)
    if a[62] == "H":
        v = [int(x[q:q + 9], 36) for x in (a, b) for q in (33, 43, 53)]
        exp.update(zip(("xincl", "xnodeo", "eo"), map(float, v[:3])))
        exp.update(zip(("omegao", "xmo", "xno"), [x * 1e-4 for x in v[3:]]))
    else:
        R = math.pi / 180
        n = 2 * math.pi / 1440
        exp.update(xincl=float(b[8:16]) * R, xnodeo=float(b[17:25]) * R, eo=float("." + b[26:33].replace(" ", "0")), omegao=float(b[34:42]) * R, xmo=float(b[43:51]) * R, xno=float(b[52:63]) * n,
                   xndt2o=float(a[33:43]) * n / 1440, xndd6o=sci(a[44:52]) * n / 1440 ** 2, bstar=sci(a[53:61]))
    for k, v in exp.items():
        g = getattr(s, k)
        if g != v if not isinstance(v, float) else abs(g - v) > tol.get(k, 4e-15) * abs(v):
            raise Violation("%s: %s is %r, the line says %r\n%s\n%s" % (name, k, g, v, a, b))
    rec.nontrivial()
    rec.label(name, "one digit changed" if c else "as shipped", "state vector" if a[62] == "H" else "elements")


PART = GenPart("shipped lines", gen, check, 20000, 400000, prepare)
