SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 4}
 Depth = 4
 Emit = TRUE
INVARIANTS Window Reader Reads Supply Report
CHECK_DEADLOCK FALSE
