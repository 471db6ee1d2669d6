SPECIFICATION Spec
CONSTANTS N = 3
 Reals <- FewReals
 Pairs <- FewPairs
 Coupling <- Couplings
 Shears = 1
INVARIANTS Witness Roots Largest Calls
CHECK_DEADLOCK FALSE
