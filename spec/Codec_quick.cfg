SPECIFICATION Spec
CONSTANTS
  Types <- Catalogue
  Bigs <- MCBigs
  RawLen = 3
  RawBytes <- MCRawBytes
  MutPos = 8
INVARIANTS RoundTrip Strict Emit
CHECK_DEADLOCK FALSE
