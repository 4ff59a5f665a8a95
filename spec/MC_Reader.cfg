SPECIFICATION Spec
CONSTANTS N = 4
 Depth = 5
 Emit = FALSE
INVARIANT Position
CHECK_DEADLOCK FALSE
