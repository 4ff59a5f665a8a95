SPECIFICATION Spec
CONSTANTS MaxWeight = 5 MaxSlots = 4
INVARIANTS ExactOdds Weighted Rounded
CHECK_DEADLOCK FALSE
