SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 4, 8}
 Depth = 6
 Emit = FALSE
INVARIANTS Window Reader Reads Supply
VIEW View
CHECK_DEADLOCK FALSE
