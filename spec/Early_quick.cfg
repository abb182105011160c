SPECIFICATION Spec
CONSTANTS
  MaxSteps = 9
  MaxEarly = 2
  MaxData = 2
  Tickets = {"none", "known", "unknown"}
INVARIANTS AllOrNothing NeverRejected EarlyOnlyOffered CompleteStream ClientReads Emit
CHECK_DEADLOCK FALSE
