"""Helpers of the demonstrations: element lines, running the programs, small C programs. cwd is the repository."""
import json, math, os, subprocess, sys, tempfile

REPO = os.getcwd()


def cks(s):
    s = s[:68].ljust(68)
    return s + str(sum(int(c) if c.isdigit() else c == "-" for c in s) % 10)


def el(num="25544", desig="98067A  ", yy=20, day=13.5, incl=51.6, node=100., ecc=0.001, argp=90., ma=10., mm=15.5,
       bstar=" 10000-4", etype="0", ndot=" .00000000", nddot=" 00000-0", cls="U", elset=999, rev=1000):
    a = "1 %5s%s %-8s %02d%012.8f %s %s %s %s %4d" % (num, cls, desig, yy, day, ndot, nddot, bstar, etype, elset)
    b = "2 %5s %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d" % (num, incl, node, round(ecc * 1e7), argp, ma, mm, rev)
    return cks(a) + "\n" + cks(b) + "\n"


def sat(name, **k):
    return name + "\n" + el(**k)


def run(prog, args, files=(), env=None):
    """runs the program in a scratch directory holding files; returns (exit code, parsed output or text)"""
    with tempfile.TemporaryDirectory() as d:
        for n, t in dict(files).items():
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t)
        r = subprocess.run([os.path.join(REPO, "src", prog)] + args, cwd=d, capture_output=True, text=True,
                           errors="replace", timeout=120)
        try:
            return r.returncode, json.loads(r.stdout)
        except ValueError:
            return r.returncode, r.stdout


def skymap(args, tle, name="t.tle"):
    return run("sat_skymap", [name] + args, {name: tle})


def vis(args, tle, name="t.tle"):
    return run("sat_visibility", [name] + args, {name: tle})


def cprog(text, args=(), extra="", timeout=120, srcs=None):
    """compiles a C program with the library and returns (exit code, output)"""
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/x.c", "w") as f:
            f.write(text)
        libs = srcs if srcs is not None else REPO + "/src/libsatskymap.a " + REPO + "/HealpixC/libchealpix.a"
        c = "gcc -O1 -w -I%s/src -I%s/HealpixC %s -o %s/x %s/x.c %s -lm" % (REPO, REPO, extra, d, d, libs)
        subprocess.run(c, shell=True, check=True)
        r = subprocess.run([d + "/x"] + list(args), cwd=d, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout


def fail(*a):
    print("WRONG:", *a)
    sys.exit(1)


def check(ok, *a):
    if not ok:
        fail(*a)


def names(j):
    return [s["name"] for s in j.get("satellites", [])]


def sep(ra1, d1, ra2, d2):
    ra1, d1, ra2, d2 = map(math.radians, (ra1, d1, ra2, d2))
    a = [math.cos(d1) * math.cos(ra1), math.cos(d1) * math.sin(ra1), math.sin(d1)]
    b = [math.cos(d2) * math.cos(ra2), math.cos(d2) * math.sin(ra2), math.sin(d2)]
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(a, b))))


ORB = r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "norad.h"
/* prop model line1 line2 t... : return code, position and velocity at each time (minutes) */
int main(int c, char **v) {
  tle_t t; double p[N_SAT_PARAMS], x[3], y[3]; int i, r;
  memset(&t, 0, sizeof t); parse_elements(v[2], v[3], &t);
  if (!strcmp(v[1], "SGP")) SGP_init(p, &t); else if (!strcmp(v[1], "SGP4")) SGP4_init(p, &t);
  else if (!strcmp(v[1], "SGP8")) SGP8_init(p, &t); else if (!strcmp(v[1], "SDP4")) SDP4_init(p, &t); else SDP8_init(p, &t);
  for (i = 4; i < c; i++) { double m = atof(v[i]); x[0]=x[1]=x[2]=y[0]=y[1]=y[2]=0;
    r = !strcmp(v[1], "SGP") ? SGP(m, &t, p, x, y) : !strcmp(v[1], "SGP4") ? SGP4(m, &t, p, x, y) :
        !strcmp(v[1], "SGP8") ? SGP8(m, &t, p, x, y) : !strcmp(v[1], "SDP4") ? SDP4(m, &t, p, x, y) : SDP8(m, &t, p, x, y);
    printf("%d %.7f %.7f %.7f %.10f %.10f %.10f\n", r, x[0], x[1], x[2], y[0], y[1], y[2]); }
  return 0; }
"""


def orbit(model, elements, *times):
    a, b = elements.strip("\n").split("\n")
    rc, out = cprog(ORB, [model, a, b] + [repr(float(t)) for t in times])
    check(rc == 0, "orbit", rc)
    return [(int(l.split()[0]), [float(z) for z in l.split()[1:4]], [float(z) for z in l.split()[4:]]) for l in out.split("\n") if l]
