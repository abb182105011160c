------------------------------ MODULE MCMitm ------------------------------
EXTENDS Mitm
M(n, h, e) == [name |-> n, hrr |-> h, early |-> e]
AllModes == {
  M("cert", FALSE, ""), M("cauth", FALSE, ""), M("pskdhe", FALSE, ""), M("pskke", FALSE, ""), M("psk384", FALSE, ""),
  M("unknown", FALSE, ""), M("early", FALSE, "acc"), M("earlyrej", FALSE, "rej"), M("cookie", TRUE, ""), M("cookiepsk", TRUE, ""), M("cookieearly", TRUE, "rej") }
=============================================================================
