from vlib.runner import CppPart
from common import *
PARTS = [CppPart("maps", "fits", ["roundtrip", "notamap"], dict(roundtrip=16_000, notamap=80_000), dict(roundtrip=800_000, notamap=6_000_000), fits=True)]
RULE = RULE_CPP + "A case is a sequence of writes (nside, ordering, coordinate system, pixel values) read back, or a file that is not a map; non-trivial when a map was compared or a file refused."
ASSUMPTIONS = COMMON + ["cfitsio does what it documents: NaN and infinities are undefined values, subnormals may be read as zero"]
