SPECIFICATION Spec
CONSTANT W = 4
INVARIANTS AtPosition Undo InverseLaw RowLaw InRange
CHECK_DEADLOCK FALSE
