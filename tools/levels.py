NOTE='every listed function is verified against its contract for all inputs; trusted: the verifier itself, go/ssa, the SMT solvers and the assumed contracts listed in the evidence'
LEVEL={}
NA={}
