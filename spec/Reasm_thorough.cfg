SPECIFICATION Spec
CONSTANTS
  Units = 4
  MaxFrags = 4
  Whats = {"ch", "bigch", "sh", "hrr", "bighrr"}
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE
