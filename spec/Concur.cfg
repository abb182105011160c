SPECIFICATION Spec
CONSTANTS
  Ops <- AllOps
  Emit = TRUE
INVARIANTS Unique NextKey
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
