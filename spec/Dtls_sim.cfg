SPECIFICATION SimSpec
CONSTANTS
  Modes = {}
  MaxSteps = 50
  MaxLoss = 10
  MaxDup = 6
  MaxTicks = 30
  MaxData = 4
INVARIANTS SimCompletes NoResend AckSound Unique Order Emit
CHECK_DEADLOCK FALSE
