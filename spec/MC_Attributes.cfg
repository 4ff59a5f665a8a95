SPECIFICATION Spec
INVARIANTS Power Char InStats Natures Sorts
CHECK_DEADLOCK FALSE
