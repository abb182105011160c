SPECIFICATION Spec
CONSTANTS
  Modes <- AllModes
  Items <- DeepItems
  Ops <- AllOps
  Shape <- Free
  MaxOps = 5
  Emit = TRUE
INVARIANTS DataInv EndInv WarnInv GenInv
PROPERTIES TermFinal
ACTION_CONSTRAINTS Useful EmitT
CHECK_DEADLOCK FALSE
