"""Shared by the checks that run the programs."""
import json, math, os, sys
from math import degrees, radians, cos

from vlib import cli, gen, model, sky
from vlib.runner import GenPart, Violation
from vlib.sky import YES, NO, MAYBE, AND, OR

RULE = ("Cases are drawn from seeded choice sequences in eight shards (vlib/draw.py): a catalogue of generated element sets of all orbit classes, a site, a date and a request; "
        "distinct by hash of the drawn values. ")
ASSUME = ["the reference propagator (harness/refsgp4.cpp) is taken as the published SGP4/SDP4 theory; the topocentric reduction is re-written in vlib/model.py",
          "satellites next to the region's edge, the shadow's edge or an altitude limit (by the tolerances of DESIGN.md) may be listed or not",
          "orbits for which the theory magnifies rounding (perigee deep inside the Earth, next to decay) are not judged"]


def setup(case, scratch, rec, files=True):
    q = sky.Request(case)
    if files:
        lay = case.get("lay") or {}
        sky.write_cat(scratch, q, **lay)
    for x, o in zip(q.sats, q.seen):
        rec.label("orbit " + x["oc"])
        rec.label("no name line" if x.get("noname") else "")
        rec.label("position: " + o.status)
    return q
