SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxAtt = 0
  Sizes <- S1
  AttKinds <- NoAtt
  Closes = FALSE
  Emit = TRUE
INVARIANTS Prefix Undisturbed Answered Fresh
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
