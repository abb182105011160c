SPECIFICATION PSpec
CONSTANTS
  Flights <- TheFlights
  Second <- Seconds
  MaxAtk = 1
  Ends = {"eof", "fail"}
  Emit = TRUE
INVARIANTS EndInv GrammarInv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
