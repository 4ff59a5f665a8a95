SPECIFICATION Spec
CONSTANT Top = 65535
INVARIANTS InRange Monotone Least0 Shifted
CHECK_DEADLOCK FALSE
