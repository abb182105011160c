SPECIFICATION Spec
CONSTANTS
  Modes <- AllModes
  MaxOps = 1
  Emit = TRUE
INVARIANTS Agreement Untouched Fatal Live
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
