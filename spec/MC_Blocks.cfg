SPECIFICATION Spec
CONSTANT Most = 12
INVARIANTS Native Linear
VIEW View
CHECK_DEADLOCK FALSE
