---------------------------- MODULE MCClientHs ----------------------------
EXTENDS ClientHs
CfgD(p, e, a, v, cc, k, d) == [psk |-> p, early |-> e, alpn |-> a, verify |-> v, ccert |-> cc, key |-> k, dtls |-> d]
Cfg(p, e, a, v, cc, k) == CfgD(p, e, a, v, cc, k, FALSE)
QuickConfigs == {
  Cfg("none", FALSE, FALSE, "roots", FALSE, "p256"),
  Cfg("none", FALSE, TRUE, "cbok", TRUE, "rsa"),
  Cfg("none", FALSE, FALSE, "cbrej", FALSE, "p256"),
  Cfg("none", FALSE, FALSE, "skip", TRUE, "p384"),
  Cfg("none", FALSE, FALSE, "skipcbrej", FALSE, "p256"),
  Cfg("both", FALSE, TRUE, "roots", FALSE, "p256"),
  Cfg("both", TRUE, TRUE, "roots", TRUE, "p256"),
  Cfg("dhe", FALSE, FALSE, "roots", FALSE, "p256"),
  Cfg("dhe", TRUE, FALSE, "skipcbok", FALSE, "rsa"),
  Cfg("ke", FALSE, FALSE, "roots", FALSE, "p256"),
  CfgD("none", FALSE, TRUE, "roots", TRUE, "p256", TRUE),
  CfgD("both", FALSE, FALSE, "cbrej", FALSE, "rsa", TRUE),
  CfgD("dhe", FALSE, FALSE, "skip", TRUE, "p384", TRUE) }
ThoroughConfigs ==
  {Cfg("none", FALSE, a, v, cc, k) : a \in BOOLEAN, cc \in BOOLEAN,
      v \in {"roots", "cbok", "cbrej", "skip", "skipcbok", "skipcbrej"}, k \in {"p256", "p384", "p521", "rsa"}}
  \cup {Cfg(p, e, a, v, FALSE, k) : p \in {"both", "dhe", "ke"}, e \in BOOLEAN, a \in BOOLEAN, v \in {"roots", "skip", "cbrej"}, k \in {"p256", "rsa"}}
  \cup {CfgD(p, FALSE, a, v, cc, k, TRUE) : p \in {"none", "both", "dhe", "ke"}, a \in BOOLEAN, cc \in BOOLEAN,
          v \in {"roots", "cbrej", "skipcbok"}, k \in {"p256", "rsa"}}
=============================================================================
