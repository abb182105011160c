SPECIFICATION Spec
CONSTANTS
  Roles = {"client", "server"}
  Suites = {"a", "b"}
  Groups = {"x25519", "p256", "p384", "p521", "ff2048", "ff3072"}
  MaxPost = 1
  MaxKU = 2
  MaxTickets = 1
  MaxConns = 1
INVARIANTS Separate Forward Secrecy Keyed NoClear Bound Emit
CHECK_DEADLOCK FALSE
