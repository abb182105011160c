SPECIFICATION Spec
CONSTANTS
  MaxSteps = 7
  MaxNoise = 2
INVARIANTS Causal Live Emit
CHECK_DEADLOCK FALSE
