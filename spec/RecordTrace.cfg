SPECIFICATION Spec
ACTION_CONSTRAINT EmitBad
CHECK_DEADLOCK FALSE
