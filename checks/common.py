REF = "the reference propagator (harness/refsgp4.cpp, Vallado's 2006 formulation of SGP4/SDP4, WGS-72) is taken as the published theory"
RULE_CPP = "Cases come from rapidcheck generators (boundaries, special values and whole ranges mixed); distinct by hash of the generated values; at most 40000 hashes are kept per shard, so distinct_nontrivial is a lower bound. "
COMMON = ["gcc, libm and IEEE-754 doubles behave as on this machine"]
ORBIT = dict(extra_src=("refsgp4.cpp",))
