BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

OPT = '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "norad.h"
static double dist(double *a, double *b) { return sqrt((a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])); }
int main(int c, char **v) { tle_t t; double p[N_SAT_PARAMS], q[N_SAT_PARAMS], x[3], y[3], z[3]; int i, k; memset(&t, 0, sizeof t);
for (k = 1; k + 1 < c; k += 2) { parse_elements(v[k], v[k + 1], &t);
%s
}
return 0; }
"""
E = [el(mm=1.0027, ecc=.02, incl=7.0, argp=27., ma=30.), el(mm=2.0061, ecc=.71, incl=63.4, argp=270., ma=30.), el(mm=2.3, ecc=.5, incl=30., argp=70., ma=130.)]
rc, out = cprog(src, sum([e.strip().split("\\n") for e in E], []))
check(rc == 0 and out == "", rc, out[:500])
'''

bug("c27-dundee-back", "C27", "Dundee compliance, a resonant orbit before its epoch and a time nearer to the epoch than one asked before",
    "under Dundee compliance the integration is only restarted at the epoch for times after it",
    [("src/deep.c", "            || (is_dundee_compliant && fabs( deep_arg->t) < fabs( deep_arg->atime)))", "            || (is_dundee_compliant && deep_arg->t >= 0. && deep_arg->t < deep_arg->atime))")],
    OPT % r'''
sxpx_set_implementation_param(SXPX_DUNDEE_COMPLIANCE, 1);
SDP4_init(p, &t); SDP4_init(q, &t);
for (i = -40; i < 40; i++) { double ts = (i * 7919 % 41) * 531.7; SDP4_init(q, &t); SDP4(ts, &t, q, x, NULL); SDP4(ts, &t, p, y, NULL);
 if (memcmp(x, y, sizeof x)) { printf("%d: %g\n", i, dist(x, y)); return 1; } }
''')

bug("c27-dundee-cache", "C27", "Dundee compliance and two times less than half an hour apart",
    "under Dundee compliance the lunar-solar terms of up to half an hour ago are used again for orbits without resonance",
    [("src/deep.c", "   if( fabs(deep_arg->savtsn-deep_arg->t) >= 30. || is_dundee_compliant)", "   if( fabs(deep_arg->savtsn-deep_arg->t) >= 30. || (is_dundee_compliant && deep_arg->resonance_flag))")],
    OPT % r'''
sxpx_set_implementation_param(SXPX_DUNDEE_COMPLIANCE, 1);
SDP4_init(p, &t); SDP4(1000., &t, p, x, NULL); SDP4(1020., &t, p, x, NULL); SDP4_init(q, &t); SDP4(1020., &t, q, y, NULL);
if (memcmp(x, y, sizeof x)) printf("%d: %g\n", k, dist(x, y));
''')

def otable(e, step, order, times, tol):
    """positions of the unchanged library with these options"""
    import subprocess, os, json
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    pre = 'src = r"""' + r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "norad.h"
int main(int c, char **v) { tle_t t; double p[N_SAT_PARAMS], x[3]; int i; memset(&t, 0, sizeof t); parse_elements(v[1], v[2], &t);
sxpx_set_dpsec_integration_step(atof(v[3])); sxpx_set_implementation_param(SXPX_DPSEC_INTEGRATION_ORDER, atoi(v[4])); SDP4_init(p, &t);
for (i = 5; i < c; i++) { SDP4_init(p, &t); SDP4(atof(v[i]), &t, p, x, NULL); printf("[%%.6f, %%.6f, %%.6f]\n", x[0], x[1], x[2]); }
return 0; }
""".replace("%%", "%") + '"""\n' + 'a, b = %s.strip().split("\\n")\nrc, out = cprog(src, [a, b, %r, %r] + %r)\n' % (e, str(step), str(order), [str(t) for t in times])
    w = subprocess.run(["python3", "-c", open(here + "/demolib.py").read() + "\n" + pre + "\nprint(json.dumps([json.loads(l) for l in out.splitlines()]))"], cwd="/repo", capture_output=True, text=True, check=True).stdout.strip()
    return pre + "for a, b in zip(out.splitlines(), %s):\n    check(math.dist(json.loads(a), b) < %g, a, b)\n" % (w, tol)

bug("c27-order-factor", "C27", "an integration order above 2 and a resonant orbit",
    "the factorial in the Taylor steps of higher order is wrong from the third term on",
    [("src/deep.c", "         delt_factor *= delt / (double)i;", "         delt_factor *= delt / 2.;")],
    otable("el(mm=2.0061, ecc=.71, incl=63.4, argp=270., ma=30.)", 7200, 4, (7200, 14400, -28800), .0005))

bug("c27-sync-fourth", "C27", "an integration order above 2 and a synchronous orbit",
    "the third derivative of the synchronous resonance has the wrong factor for its third harmonic",
    [("src/deep.c", "            term3a *= -9.;", "            term3a *= 9.;")],
    otable("el(mm=1.03, ecc=.02, incl=7.0, argp=27., ma=30.)", 43200, 4, (43200, 28800, -43200), .0005))

bug("c28-sgp-ndot", "C28", "SGP with mean motion derivatives, far from the epoch",
    "SGP takes the second derivative of the mean motion with a factor of 2 instead of 3",
    [("src/sgp.c", "(tle->xndt2o*2.+tle->xndd6o*3.*tsince)*tsince", "(tle->xndt2o*2.+tle->xndd6o*2.*tsince)*tsince")], '''
e = el(mm=14.0, ecc=.02, incl=51., ndot=" .00010000", nddot=" 50000-3")
# size of the orbit after thirty days from the mean motion then: n + 2 (n'/2) t + 3 (n"/6) t^2
n = 14.0 + 2 * 1e-4 * 30 + 3 * 5e-4 * 900
r = [math.hypot(*x[1]) for x in orbit("SGP", e, *[43200 + k for k in range(0, 100, 2)])]
a = 14.0 ** (2 / 3) / n ** (2 / 3) * (398600.8 / (14.0 * 2 * math.pi / 86400) ** 2) ** (1 / 3)
m = (max(r) + min(r)) / 2
check(abs(m / a - 1) < 0.005, m, a)
''')

def table(model, e, times, tol):
    """positions of the unchanged library"""
    import subprocess, os, json
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = open(here + "/demolib.py").read() + "\nprint(json.dumps([[round(c, 6) for c in x[1]] for x in orbit(%r, %s, *%r)]))" % (model, e, times)
    w = subprocess.run(["python3", "-c", code], cwd="/repo", capture_output=True, text=True, check=True).stdout.strip()
    return "r = orbit(%r, %s, *%r)\nfor a, b in zip(r, %s):\n    check(math.dist(a[1], b) < %g, a, b)\n" % (model, e, times, w, tol)

bug("c28-sdp8-c5", "C28", "SDP8 with drag and a perigee away from the equator",
    "the part of the drag of SDP8 that depends on the argument of perigee through J3 has the wrong sign",
    [("src/sdp8.c", "     deep_arg->eosq*8.5+d1*d2*b1+c4*cos2g+c5*deep_arg->sing);", "     deep_arg->eosq*8.5+d1*d2*b1+c4*cos2g-c5*deep_arg->sing);")],
    table("SDP8", 'el(mm=5.5, ecc=.56, incl=88., argp=90., ma=0., bstar=" 30000-2")', (0, 7200, 28800), .02))

bug("c28-simple-limit", "C28", "SGP8 with drag between the limits of the two drag models",
    "SGP8 uses its simplified drag for orbits that decay ten times faster than it is meant for",
    [("src/sgp8.c", "   if( fabs(r1) > .00216)", "   if( fabs(r1) > .0216)")],
    table("SGP8", 'el(mm=7.0, ecc=.43, incl=51., bstar=" 30000-1", ma=0.)', (0, 720, 2880), .02))

bug("c28-sgp8-d25", "C28", "SGP8 with full drag, eccentric orbit, far from the epoch",
    "one term of the third derivative of the mean motion of SGP8 has the wrong sign",
    [("src/sgp8.c", "          (eta2*30.+40.+eeta*272.)+d25*(eta2*68.+17.)+", "          (eta2*30.+40.+eeta*272.)-d25*(eta2*68.+17.)+")],
    table("SGP8", 'el(mm=7.0, ecc=.43, incl=51., bstar=" 30000-1", ma=0.)', (0, 720, 2880), .02))

bug("c28-sgp-qo", "C28", "SGP with a mean motion that falls, so that the orbit grows",
    "the perigee distance is not kept when the orbit of SGP grows",
    [("src/sgp.c", "   if (a > qo) e = 1.-qo/a;", "   if (a > qo) e = a > ao ? tle->eo : 1.-qo/a;")],
    table("SGP", 'el(mm=13.0, ecc=.01, incl=51., ndot="-.00500000", ma=0.)', (0, 1440, 14400), .02))
