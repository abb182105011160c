SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Servers = {1, 2}
  Names = {"n1"}
  SuiteLists <- SQ
  Modes <- ModesQ
  Flaws <- FlawsQ
  MaxConns = 3
  Cookies = {FALSE}
  Tix <- TixAll
  Protos <- PAll
INVARIANTS OnlyHolders Resumable NoFlaw
CHECK_DEADLOCK FALSE
