SPECIFICATION Spec
VIEW View
CONSTANTS
  Configs <- QuickConfigs
  Emit = TRUE
INVARIANTS TypeOK OrderInv AuthInv AskInv PskInv EarlyInv CookieInv
PROPERTIES FailFinal ConnFinal
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
