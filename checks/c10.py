from vlib.runner import CppPart
from common import *
PARTS = [CppPart("propagators", "orbit", ["near", "deep", "noanswer", "select"],
                 dict(near=3_000_000, deep=1_600_000, noanswer=1_200_000, select=400_000),
                 dict(near=200_000_000, deep=120_000_000, noanswer=80_000_000, select=10_000_000), **ORBIT)]
RULE = RULE_CPP + "A case is an element set and a time offset; non-trivial when the theory gives a position that is compared, or clearly has none."
ASSUMPTIONS = COMMON + [REF, "perigees deep inside the Earth (below 0.95 radii), e > 0.98 and a few cases next to the limits of validity are not compared"]
