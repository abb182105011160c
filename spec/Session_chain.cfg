SPECIFICATION SimSpec
CONSTANTS
  Clients = {1}
  Servers = {1}
  Names = {"n1"}
  SuiteLists <- S12
  Modes <- ModesAll
  Flaws = {"none"}
  MaxConns = 40
  Cookies = {TRUE, FALSE}
  Tix = {"read"}
  Protos <- PAll
INVARIANTS OnlyHolders NoFlaw Emit
CHECK_DEADLOCK FALSE
