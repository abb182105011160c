SPECIFICATION Spec
CONSTANTS
  Flights <- TheFlights
  Alerts <- ThoroughAlerts
  Emit = TRUE
INVARIANTS FailInv FatalInv
PROPERTIES Final
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
