SPECIFICATION Spec
CONSTANTS N = 4 Mid = 2 Modulus = 3 MaxPos = 14
INVARIANTS DeliversStream WillDeliver
CHECK_DEADLOCK FALSE
