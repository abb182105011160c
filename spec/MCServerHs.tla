---------------------------- MODULE MCServerHs ----------------------------
EXTENDS ServerHs
CfgD(a, p, e, c, k, d) == [auth |-> a, psk |-> p, early |-> e, cookie |-> c, key |-> k, dtls |-> d]
Cfg(a, p, e, c, k) == CfgD(a, p, e, c, k, FALSE)
QuickConfigs == {
  Cfg("none",  "none",  FALSE, FALSE, "p256"),
  Cfg("req",   "none",  FALSE, FALSE, "rsa"),
  Cfg("cbok",  "known", FALSE, FALSE, "p384"),
  Cfg("cbrej", "none",  FALSE, FALSE, "p256"),
  Cfg("none",  "known", TRUE,  FALSE, "p256"),
  Cfg("req",   "known", TRUE,  FALSE, "p256"),
  Cfg("none",  "known", TRUE,  TRUE,  "p256"),
  Cfg("req",   "none",  FALSE, TRUE,  "p256"),
  CfgD("req",  "known", FALSE, FALSE, "p256", TRUE),
  CfgD("none", "known", FALSE, TRUE,  "p256", TRUE),
  CfgD("cbrej", "none", FALSE, TRUE,  "rsa", TRUE) }
ThoroughConfigs ==
  {Cfg(a, p, e, c, k) : a \in {"none", "req", "cbok", "cbrej"}, p \in {"none", "known"}, e \in BOOLEAN, c \in BOOLEAN, k \in {"p256", "rsa"}}
  \cup {CfgD(a, p, FALSE, c, k, TRUE) : a \in {"none", "req", "cbok", "cbrej"}, p \in {"none", "known"}, c \in BOOLEAN, k \in {"p256", "rsa"}}
  \cup {Cfg(a, "none", FALSE, FALSE, k) : a \in {"req", "cbok"}, k \in {"p384", "p521"}}
=============================================================================
