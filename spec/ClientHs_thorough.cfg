SPECIFICATION Spec
VIEW View
CONSTANTS
  Configs <- ThoroughConfigs
  Emit = TRUE
INVARIANTS TypeOK OrderInv AuthInv FinInv OfferInv RetryInv
PROPERTIES FailFinal ConnFinal
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
