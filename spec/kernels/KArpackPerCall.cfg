SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Calls = 2
 Products = 2
 Lock = "call"
INVARIANTS Own
CHECK_DEADLOCK FALSE
