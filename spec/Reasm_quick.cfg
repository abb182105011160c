SPECIFICATION Spec
CONSTANTS
  Units = 3
  MaxFrags = 4
  Whats = {"ch", "bigch", "sh", "hrr", "bighrr"}
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE
