from vlib.runner import CppPart
from common import *
PARTS = [CppPart("options", "orbit", ["options"], dict(options=1_000_000), dict(options=60_000_000), **ORBIT)]
RULE = RULE_CPP + "A case is a model, an element set, a time, the options and six other times asked in between; non-trivial when the answer is compared with the theory taken in the same steps, or repeated under Dundee compliance."
ASSUMPTIONS = COMMON + [REF + ", extended to Taylor steps of any size and order in the resonance angle"]
