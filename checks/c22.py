from vlib.runner import CppPart
from common import *
PARTS = [CppPart("numbering", "healpix", ["conv", "order", "npix"], dict(conv=6_000_000, order=4_000_000, npix=4_000_000), dict(conv=400_000_000, order=300_000_000, npix=300_000_000))]
RULE = RULE_CPP + "A case is a resolution and a pixel (ring ends, face edges and whole range); non-trivial when nside > 1."
ASSUMPTIONS = COMMON
