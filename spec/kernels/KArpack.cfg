SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Calls = 2
 Products = 2
 Lock = "whole"
INVARIANTS Own Exclusive Released
PROPERTY Done
CHECK_DEADLOCK FALSE
