SPECIFICATION Spec
CONSTANTS
  CProfs <- CProfS
  SProfs <- SProfS
  CSets <- CSetS
  SSets <- SSetS
  Faults = {"none", "flipS"}
  MaxConns = 2
  MaxObjs = 4
  MaxLen = 7
INVARIANTS Alone NoGhosts
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
