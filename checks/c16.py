from vlib.runner import CppPart
from common import *
import place
PARTS = [CppPart("library", "astro", ["gmst", "nutation", "observer", "radec"], dict(gmst=2_000_000, nutation=1_000_000, observer=2_000_000, radec=2_000_000), dict(gmst=100_000_000, nutation=60_000_000, observer=100_000_000, radec=100_000_000)),
         place.part(place.sidereal, 30000, 600000)]
RULE = RULE_CPP + "A case is a date (and a site); non-trivial unless at the origin of time or of longitude, or a request to one of the programs."
ASSUMPTIONS = COMMON
