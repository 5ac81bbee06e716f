from vlib.runner import CppPart
from common import *
import place
PARTS = [CppPart("library", "astro", ["altaz"], 8_000_000, 300_000_000),
         place.part(place.horizon, 40000, 800000)]
RULE = RULE_CPP + "A case is declination, hour angle and latitude (meridian, equator, poles, zenith, nadir and whole ranges), or a request to one of the programs (region on the meridian, at the zenith, at the Sun)."
ASSUMPTIONS = COMMON
