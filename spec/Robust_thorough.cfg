SPECIFICATION PSpec
CONSTANTS
  Flights <- TheFlights
  Second <- Seconds
  MaxAtk = 2
  Ends = {"eof", "fail", "quiet"}
  Emit = TRUE
INVARIANTS EndInv GrammarInv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
