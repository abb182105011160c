SPECIFICATION Spec
CONSTANTS
  Roles = {"client", "server"}
  Suites = {"a", "b"}
  Groups = {"x25519", "p256", "p384", "p521", "ff2048", "ff3072"}
  MaxPost = 8
  MaxKU = 6
  MaxTickets = 3
  MaxConns = 3
INVARIANTS Separate Forward Secrecy Keyed NoClear Bound Emit
CHECK_DEADLOCK FALSE
