from clic import *
from vlib import shipped
from vlib.runner import CppPart
from common import COMMON, ORBIT, RULE_CPP


def check(case, rec, scratch):
    """state-vector satellites among others, through sat_skymap"""
    q = setup(case, scratch, rec)
    a = q.args()
    j = cli.ok("sat_skymap", a, scratch)
    rows = sky.listed(j)
    q.match(rows, limit=1000)
    for r, k in sky.row_by_norad(q, j):
        sky.check_identity(q, r, k)
        x = q.sats[k]
        ok = sky.check_data(q, r, k, rec)
        if "geoloc" in r:
            sky.check_geoloc(q, r, k)
        if x["oc"] == "H":
            rec.nontrivial(ok)
            o = q.seen[k]
            if ok:
                t = (q.jd - model.epoch_jd(x)) * 24
                rec.label("before the epoch" if t < 0 else "after the epoch", "within an hour of the epoch" if abs(t) < 1 else "over a day from the epoch" if abs(t) > 24 else "", "beyond 500000 km" if o.d1 > 5e5 else "", "sunlit" if r["data"][8] else "in shadow")


def case(d):
    m5 = gen.when(d)
    mjd = m5 * 1e-5
    sats = [gen.hsat(d, mjd, gen.norad_any, gen.name if d.flag() else gen.plain_name) for _ in range(d.i(1, 5))]
    for x in sats:
        x["et"] = "H"
    sats += [gen.sat(d, mjd) for _ in range(d.i(0, 2))]
    if d.flag():
        sats = sats[::-1]
    # (the hundreds of millions of the extended numbers do not collide after + 1)
    seen = set()
    sats = [x for x in sats if not (x["norad"] in seen or seen.add(x["norad"]))]
    c = dict(m5=m5, site=gen.site(d), sats=sats, dt=gen.delta(d))
    n = len(sats)
    c["centre"], c["rad"], c["H"] = gen.centre(d, n), (gen.all_sky(d) if d.i(0, 2) else gen.radius(d, n)), d.flag()
    c["G"], c["V"] = d.flag(), d.chance(6)
    k = d.i(0, n - 1)
    if d.chance(4) and sats[k]["oc"] == "H":
        c["s"], c["V"] = sats[k]["norad"], False
        if not single_ok(c):
            del c["s"]
    c["lay"] = gen.layout(d, n)
    return c


def single_ok(c):
    q = sky.Request(c)
    return all(o.status == "ok" for o in q.seen)


# ---- the shipped ephemerides: the next day's vector is where the spacecraft really went
class Vec(model.Prop):
    def __init__(self, state, epoch):
        self.s, self.high, self.deep = {}, True, True
        self.state, self.epoch = state, epoch
        self.cst = model.A6(*state)


def real(case, rec, scratch):
    E = shipped.entries(case["file"])
    k = case["k"]
    lines, jd0, s0 = E[k]
    _, jd1, s1 = E[k + 1]
    cli.write(os.path.join(scratch, "real.txt"), "\n".join(sum((list(E[i][0]) for i in range(k, min(len(E), k + case["more"]))), ["# head"])) + "\n")
    # how well the author's fits join
    r = Vec(s0, jd0).at((jd1 - jd0) * 1440)[1]
    b = Vec(s1, jd1).at((jd0 - jd1) * 1440)[1]
    join = max(math.dist(r, [v / 1e3 for v in s1[:3]]), math.dist(b, [v / 1e3 for v in s0[:3]]))
    if not 0.5 < jd1 - jd0 < 1.5 or join > 20:
        rec.label("manoeuvre or gap between the entries: not judged")
        return
    mjd = "%.5f" % (jd0 - model.JD0 + case["f"] * 1e-3)
    jd = model.JD0 + float(mjd)
    site = model.Site(case["site"][0] * 1e-5, case["site"][1] * 1e-5, case["site"][2] * 0.1)
    a = ["real.txt", "-l" + gen.site_text(case["site"]), "-j" + mjd, "-s%d" % int(lines[1][2:7])]
    j = cli.ok("sat_skymap", a, scratch)
    cmd = ": %s entry %d: sat_skymap %s" % (case["file"], k, " ".join(a))
    rows = sky.listed(j)
    if len(rows) != 1 or rows[0]["norad_n"] != int(lines[1][2:7]) or rows[0]["name"] != lines[0][:23].rstrip():
        raise Violation("answer %s%s" % (rows, cmd))
    d = rows[0]["data"]
    obs = site.pos(jd)
    coarse = 0
    for what, p, tol in (("its entry integrated", Vec(s0, jd0), 0.1), ("the next day's entry", Vec(s1, jd1), join * 1.5 + 2)):
        st, pos, _, e = p.at((jd - p.epoch) * 1440)
        e = coarse = max(e, coarse)  # (the steps taken are those from its own entry)
        ra, dec, dist = model.radec(pos, obs)
        ra, dec = model.to_j2000(jd, ra, dec)
        sky.dir_close("position, against " + what, d[0], d[1], ra, dec, degrees((tol + e) / dist) * 1.2 + 1e-4, cmd)
        sky.close("Distance, against " + what, d[4], dist, tol + e + 0.01, cmd)
    rec.nontrivial()
    rec.label(case["file"])


def real_case(d):
    fs = [f for f in shipped.files() if len(shipped.entries(f)) > 1]
    f = d.pick(*fs)
    return dict(file=f, k=d.i(0, len(shipped.entries(f)) - 2), f=d.i(0, 1000), site=gen.site(d), more=d.i(1, 4))


PARTS = [CppPart("integrator", "orbit", ["high"], 240_000, 8_000_000, **ORBIT), GenPart("programs", case, check, 24000, 400000, prepare=cli.prepare),
         GenPart("shipped ephemerides", real_case, real, 10000, 100000, prepare=cli.prepare)]
RULE = RULE_CPP + ("A case is a state vector and a time for the library; for sat_skymap a catalogue with state-vector satellites and a request (drawn from seeded choice sequences, vlib/draw.py), "
                   "or an entry of the spacecraft ephemerides shipped in scripts/ and a moment of the day after it. Non-trivial: positions were compared with the independent integration (and with the next day's shipped entry).")
ASSUMPTIONS = COMMON + ASSUME[1:2] + ["integration steps of a day: orbits with a period of days at perigee are compared, shorter ones only near the epoch",
               "days of a manoeuvre (the shipped entries do not join within 20 km) are not judged"]
