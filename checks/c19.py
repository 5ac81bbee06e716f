from vlib.runner import CppPart
from common import *
PARTS = [CppPart("separation", "astro", ["sep"], 4_000_000, 300_000_000)]
RULE = RULE_CPP + "A case is three directions (poles, antipodes, tiny separations and whole ranges) and a rotation; non-trivial unless two directions are bitwise equal."
ASSUMPTIONS = COMMON
