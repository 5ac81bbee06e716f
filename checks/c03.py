from clic import *


def check(case, rec, scratch):
    q = setup(case, scratch, rec)
    j = cli.ok("sat_skymap", q.args(), scratch)
    for r, k in sky.row_by_norad(q, j):
        sky.check_identity(q, r, k)
        rec.label("letter-coded number" if q.sats[k]["norad"] > 99999 else "", "long name" if len(cli.b(q.sats[k]["name"])) > 23 else "", "designator none" if r["intl_desig"] == "none" else "")
        if sky.check_data(q, r, k, rec):
            rec.nontrivial()
            rec.label("listed " + q.sats[k]["oc"], "second epoch " + ("under a minute" if q.dt < 60 else "under half an hour" if q.dt < 1800 else "later"))


def case(d):
    c = gen.region_case(d, norad=gen.norad_any)
    k = d.i(0, 5)
    if k < 3:  # see them all
        c["rad"] = d.pick(1800000, 2600000)
    elif k == 3:
        c["E"] = True
        c["rad"] = 2600000
    c["lay"] = gen.layout(d, len(c["sats"]))
    return c


PARTS = [GenPart("rows", case, check, 40000, 1000000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: at least one listed satellite whose whole row was compared with the model."
ASSUMPTIONS = ASSUME
