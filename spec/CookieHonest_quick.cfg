SPECIFICATION Spec
CONSTANTS
  Styles = {"same", "fresh", "blk", "blk2", "dflt"}
  Suites <- SuitesAll
  Psks = {"none", "dhe", "ke", "early"}
  Vals = {"none", "skip", "0", "1", "255", "256", "5000", "17000", "60000"}
  Auths = {TRUE, FALSE}
  Transports = {"tls", "dtls"}
INVARIANTS OnceOnly Intact Emit
PROPERTIES Done
CHECK_DEADLOCK FALSE
