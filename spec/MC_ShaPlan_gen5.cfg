SPECIFICATION Spec
CONSTANTS Depth = 5
 Emit = TRUE
INVARIANTS Right Report
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
