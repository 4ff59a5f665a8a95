SPECIFICATION Spec
CONSTANTS N = 4
 Depth = 3
 Emit = TRUE
INVARIANTS Position Report
CHECK_DEADLOCK FALSE
