from vlib.runner import CppPart, GenPart, Violation
from common import *
import place, os, subprocess
from vlib import build, cli, model

def clock_prepare():
    cli.prepare()
    build.clocklib()


def clock(case, rec, scratch):
    """mjdnow under a clock set to the generated second"""
    e = dict(cli.ENV, LD_PRELOAD=build.clocklib(), FAKE_TIME=str(case["t"]))
    r = subprocess.run([os.path.join(cli.prog_dir(), "mjdnow")], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    o = r.stdout.decode(errors="replace")
    try:
        v = float(o)
    except ValueError:
        raise Violation("mjdnow printed %r" % o)
    if r.returncode != 0 or not o.endswith("\n"):
        raise Violation("mjdnow: exit code %d, %r" % (r.returncode, o))
    want = 40587 + case["t"] / 86400
    if abs(v - want) > 1.1e-6:
        raise Violation("mjdnow prints %s at Unix time %d, MJD %.6f" % (o.strip(), case["t"], want))
    rec.nontrivial()
    rec.label("before 1970" if case["t"] < 0 else "after 2038" if case["t"] >= 2 ** 31 else "")


def clock_case(d):
    k = d.i(0, 5)
    return dict(t=d.i(0, 2 ** 31 - 1) if k < 2 else d.i(1500000000, 2000000000) if k < 4 else d.i(0, 80000) * 86400 + d.pick(0, 1, 86399) if k == 4 else d.i(-2 ** 31, 2 ** 33))


PARTS = [CppPart("library", "astro", ["date2mjd", "mjd2date"], 4_000_000, 120_000_000), place.part(place.dates, 14000, 400000),
         GenPart("mjdnow", clock_case, clock, 8000, 200000, prepare=clock_prepare)]
RULE = RULE_CPP + "A case is a date or an MJD (leap days, century ends, last second of the day, years 1-9999), a request to one of the programs, or a setting of the clock; non-trivial always."
ASSUMPTIONS = COMMON + ["mjdnow reads the clock through the C library (time, gettimeofday, clock_gettime), which the check presets with LD_PRELOAD"]
