SPECIFICATION Spec
CONSTANTS
  Modes <- AllModes
  Items <- QuickItems
  Ops <- AllOps
  Shape <- Free
  MaxOps = 4
  Emit = TRUE
INVARIANTS DataInv EndInv WarnInv GenInv
PROPERTIES TermFinal
ACTION_CONSTRAINTS Useful EmitT
CHECK_DEADLOCK FALSE
