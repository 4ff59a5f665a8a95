SPECIFICATION Spec
CONSTANT Top = 8192
INVARIANTS InRange Monotone Least0 Shifted
CHECK_DEADLOCK FALSE
