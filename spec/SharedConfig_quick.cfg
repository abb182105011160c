SPECIFICATION SimSpec
CONSTANTS
  CProfs = {}
  SProfs = {}
  CSets <- CSetAll
  SSets <- SSetAll
  Faults <- FaultsAll
  MaxConns = 8
  MaxObjs = 6
  MaxLen = 56
INVARIANTS NoGhosts EmitSim
CHECK_DEADLOCK FALSE
