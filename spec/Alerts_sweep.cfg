SPECIFICATION Spec
CONSTANTS
  Modes <- AllModes
  Items <- SweepItems
  Ops <- NoOps
  Shape <- SweepShape
  MaxOps = 5
  Emit = TRUE
INVARIANTS DataInv EndInv WarnInv GenInv
PROPERTIES TermFinal
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
