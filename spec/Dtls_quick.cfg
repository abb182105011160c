SPECIFICATION Spec
CONSTANTS
  Modes = {"psk", "cookie"}
  MaxSteps = 60
  MaxLoss = 1
  MaxDup = 0
  MaxTicks = 5
  MaxData = 0
VIEW View
INVARIANTS Completes NoResend AckSound Unique Alive Order
CHECK_DEADLOCK FALSE
