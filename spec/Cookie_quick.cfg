SPECIFICATION SimSpec
CONSTANTS
  Insts = {1, 2}
  Prots = {}
  Handlers <- HandlersAll
  Peers = {1, 2}
  Hellos <- HellosAll
  Damages <- DamagesAll
  MaxSends = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
