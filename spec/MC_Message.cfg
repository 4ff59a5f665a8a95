SPECIFICATION Spec
INVARIANTS Date Time Shape
CHECK_DEADLOCK FALSE
