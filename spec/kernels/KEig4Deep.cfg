SPECIFICATION Spec
CONSTANTS N = 4
 Reals <- FewReals
 Pairs <- FewPairs
 Coupling <- FewCouplings
 Shears = 1
INVARIANTS Witness Roots Largest Calls
CHECK_DEADLOCK FALSE
