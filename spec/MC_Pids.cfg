SPECIFICATION Spec
INVARIANT Native
CHECK_DEADLOCK FALSE
