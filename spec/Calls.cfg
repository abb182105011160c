SPECIFICATION Spec
CONSTANTS
  MaxIn = 3
  MaxFuel = 3
  Emit = TRUE
VIEW View
INVARIANT TypeOK
PROPERTIES NoWait Over
CHECK_DEADLOCK FALSE
