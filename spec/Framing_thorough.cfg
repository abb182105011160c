SPECIFICATION Spec
CONSTANTS
  Flights <- MCFlights
  Units = 3
  MaxInner = 4
  Apis = {"poll", "late", "block"}
  Segs = {"rec", "byte", "rnd", "join"}
INVARIANTS OutcomeOnlyLegality NoLag Emit
CHECK_DEADLOCK FALSE
