SPECIFICATION QuickSpec
CONSTANTS
  Emit = TRUE
INVARIANTS Inside Preferred Complete AlpnFound Resumes
PROPERTIES Ends
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
