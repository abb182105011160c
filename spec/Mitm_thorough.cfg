SPECIFICATION Spec
CONSTANTS
  Modes <- AllModes
  MaxOps = 2
  Emit = TRUE
INVARIANTS Agreement Untouched Fatal Live
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
