SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANTS Agree32 Shifts32 Meaning32 Agree64 Shifts64 Meaning64
CHECK_DEADLOCK FALSE
