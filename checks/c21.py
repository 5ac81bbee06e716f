from vlib.runner import CppPart
from common import *
PARTS = [CppPart("pixels", "healpix", ["pos32", "pos64", "pix32", "pix64"], dict(pos32=2_000_000, pos64=2_000_000, pix32=4_000_000, pix64=4_000_000), dict(pos32=120_000_000, pos64=120_000_000, pix32=300_000_000, pix64=300_000_000))]
RULE = RULE_CPP + "A case is a resolution and a position (uniform, on or next to cell edges, the |z|=2/3 transition, poles, multiples of 90 degrees) or a pixel; non-trivial when nside > 1."
ASSUMPTIONS = COMMON + ["the published projection is evaluated in 80-bit arithmetic; a position within rounding of a cell edge may go to either cell"]
