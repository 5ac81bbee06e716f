from vlib.runner import CppPart
from common import *
import place
PARTS = [CppPart("library", "astro", ["sun"], 6_000_000, 100_000_000),
         place.part(place.sun, 40000, 800000)]
RULE = RULE_CPP + "A case is a date between 1950 and 2050, or a request to one of the programs."
ASSUMPTIONS = COMMON
