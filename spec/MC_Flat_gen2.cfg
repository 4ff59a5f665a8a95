SPECIFICATION Spec
CONSTANTS MaxFields = 2 Emit = TRUE
INVARIANTS Faithful Sequence Report
CHECK_DEADLOCK FALSE
