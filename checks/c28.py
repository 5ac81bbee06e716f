from vlib.runner import CppPart
from common import *
PARTS = [CppPart("report3", "orbit", ["report3"], dict(report3=5_000_000), dict(report3=100_000_000), **ORBIT)]
RULE = RULE_CPP + "A case is a model, an element set, its rates of mean motion and a time; non-trivial when the report's model gives a position that is compared, or has none."
ASSUMPTIONS = COMMON + ["the reference (harness/refsgp4.cpp) is written from Spacetrack Report 3; the time derivatives of its drag equations come from Taylor series instead of the report's formulas"]
