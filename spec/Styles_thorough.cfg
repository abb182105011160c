SPECIFICATION Spec
CONSTANTS
  MaxSteps = 8
  MaxNoise = 2
INVARIANTS Causal Live Emit
CHECK_DEADLOCK FALSE
