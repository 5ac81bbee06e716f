from vlib.runner import CppPart
from common import *
PARTS = [CppPart("models", "orbit", ["self", "sibling"], dict(self=1_600_000, sibling=1_600_000), dict(self=120_000_000, sibling=100_000_000), **ORBIT)]
RULE = RULE_CPP + "A case is a model, an element set with a perigee above 180 km, a time and four other times asked in between; non-trivial when the model gives a position."
ASSUMPTIONS = COMMON + ["tolerances are the models' own: 30-minute re-evaluation of lunisolar terms, half-day resonance steps, short-period terms left out of the rates"]
