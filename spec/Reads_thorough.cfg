SPECIFICATION Spec
CONSTANTS
  Modes <- AllModes
  MaxSend = 4
  MaxSteps = 7
INVARIANTS Conserved Drained Grows Emit
CHECK_DEADLOCK FALSE
