SPECIFICATION Spec
INVARIANTS Undone Swapped Inverted InvertedMod Digits Least Hashed
CHECK_DEADLOCK FALSE
