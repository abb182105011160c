SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxAtt = 1
  Sizes <- S3
  AttKinds <- AllAtt
  Closes = TRUE
  Emit = TRUE
INVARIANTS Prefix Undisturbed Answered Fresh
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
