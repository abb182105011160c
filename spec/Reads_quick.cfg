SPECIFICATION Spec
CONSTANTS
  Modes <- AllModes
  MaxSend = 3
  MaxSteps = 6
INVARIANTS Conserved Drained Grows Emit
CHECK_DEADLOCK FALSE
