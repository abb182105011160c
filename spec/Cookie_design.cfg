SPECIFICATION Spec
CONSTANTS
  Insts = {1, 2}
  Prots <- ProtsAll
  Handlers = {"none", "addr", "deny", "skip"}
  Peers = {1, 2}
  Hellos <- HellosS
  Damages = {"none", "intact", "flip", "forged"}
  MaxSends = 3
INVARIANTS Guarded OneRetry
CHECK_DEADLOCK FALSE
