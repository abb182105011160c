SPECIFICATION Spec
CONSTANTS
  Types <- Catalogue
  Bigs <- MCBigs
  RawLen = 4
  RawBytes <- MCRawBytes
  MutPos = 40
INVARIANTS RoundTrip Strict Emit
CHECK_DEADLOCK FALSE
