SPECIFICATION Spec
CONSTANTS Depth = 4
 Emit = TRUE
INVARIANTS Right Report
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
