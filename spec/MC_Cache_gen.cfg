SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Starts = {"none", "part", "whole"}
  MaxFaults = 1
  Trusting = FALSE
  InPlace = FALSE
  History = TRUE
INVARIANTS Right Whole Emit
CHECK_DEADLOCK FALSE
