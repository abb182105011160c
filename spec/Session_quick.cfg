SPECIFICATION SimSpec
CONSTANTS
  Clients = {1, 2}
  Servers = {1, 2}
  Names = {"n1", "n2"}
  SuiteLists <- S12
  Modes <- ModesAll
  Flaws <- FlawsAll
  MaxConns = 8
  Cookies = {TRUE, FALSE}
  Tix <- TixAll
  Protos <- PAll
INVARIANTS OnlyHolders Resumable NoFlaw Emit
CHECK_DEADLOCK FALSE
