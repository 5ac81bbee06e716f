from vlib.runner import CppPart
from common import *
import c13lines
PARTS = [CppPart("element lines", "tle", ["decode", "digit", "foreign"],
                 dict(decode=600_000, digit=400_000, foreign=400_000), dict(decode=30_000_000, digit=20_000_000, foreign=20_000_000)),
         c13lines.PART]
RULE = RULE_CPP + "A case is a pair of lines, written from drawn field values or taken from the shipped files, as it is or changed; non-trivial when the values, the verdict or the rejection is known beforehand."
ASSUMPTIONS = COMMON + ["what a column means is read off the format's description in src/get_el.c and the public TLE format; lines outside it (letters in numeric fields, other bytes in the check digit's place) are only required to be handled, not to give a given value"]
