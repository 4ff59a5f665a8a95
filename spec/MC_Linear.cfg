SPECIFICATION Spec
INVARIANTS Linear Undone Drawn
CHECK_DEADLOCK FALSE
