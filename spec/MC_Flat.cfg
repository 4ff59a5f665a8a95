SPECIFICATION Spec
CONSTANTS MaxFields = 3 Emit = FALSE
INVARIANTS Faithful Sequence
CHECK_DEADLOCK FALSE
