SPECIFICATION Spec
CONSTANTS N = 3
 Reals <- MoreReals
 Pairs <- MorePairs
 Coupling <- Couplings
 Shears = 2
INVARIANTS Witness Roots Largest Calls
CHECK_DEADLOCK FALSE
