"""The spacecraft ephemerides in /repo/scripts: one state vector a day, fitted by their author to published positions."""
import glob, os

from . import build

_cache = {}


def files():
    return sorted(os.path.basename(f) for f in glob.glob(os.path.join(build.REPO, "scripts", "*.txt")))


def jd_of(l):
    yy, day = int(l[18:20]), float(l[20:32])
    y = yy + 100 if yy < 57 else yy
    return day + 2415019.5 + y * 365 + (y - 1) // 4


def entries(name):
    """[(three lines, epoch JD, [x, y, z in m, velocity in m/s])]"""
    if name not in _cache:
        L = open(os.path.join(build.REPO, "scripts", name), errors="replace").read().splitlines()
        out = []
        for n, a, b in zip(L, L[1:], L[2:]):
            if a[:2] == "1 " and b[:2] == "2 " and len(a) >= 69 and len(b) >= 69 and a[62] == "H":
                h = [int(a[c:c + 9], 36) for c in (33, 43, 53)] + [int(b[c:c + 9], 36) * 1e-4 for c in (33, 43, 53)]
                out.append(((n, a, b), jd_of(a), [float(v) for v in h]))
        _cache[name] = out
    return _cache[name]
