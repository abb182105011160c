SPECIFICATION Spec
CONSTANTS
  Flights <- TheFlights
  Alerts <- QuickAlerts
  Emit = TRUE
INVARIANTS FailInv FatalInv
PROPERTIES Final
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
