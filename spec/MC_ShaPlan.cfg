SPECIFICATION Spec
CONSTANTS Depth = 0
 Emit = FALSE
INVARIANT Right
VIEW Abstract
CHECK_DEADLOCK FALSE
