----------------------------- MODULE MCAlertsHs -----------------------------
EXTENDS AlertsHs
TheFlights == [
  cfull   |-> <<"SH.dhe", "EE", "Cert.good", "CV.ok", "Fin">>,
  ccr     |-> <<"HRR", "SH.dhe", "EE.alpn", "CR", "Cert.inter", "CV.ok", "Fin">>,
  cpsk    |-> <<"SH.psk_dhe", "EE", "Fin">>,
  cearly  |-> <<"SH.psk_dhe", "EE.early", "Fin">>,
  cdfull  |-> <<"HRR", "SH.dhe", "EE", "CR", "Cert.good", "CV.ok", "Fin">>,
  cdpsk   |-> <<"SH.psk_ke", "EE", "Fin">>,
  sfull   |-> <<"CH.full", "Fin">>,
  sauth   |-> <<"CH.full", "Cert.good", "CV.ok", "Fin">>,
  scook   |-> <<"CH.full", "CH.full", "Cert.good", "CV.ok", "Fin">>,
  spsk    |-> <<"CH.psk", "Fin">>,
  searly  |-> <<"CH.early", "EOED", "Fin">>,
  sdauth  |-> <<"CH.full", "Cert.good", "CV.ok", "Fin">>,
  sdcook  |-> <<"CH.full", "CH.full", "Fin">> ]
L == {0, 1, 2, 3, 255}
QuickAlerts == {[l |-> l, d |-> d, n |-> 2] : l \in {1, 2}, d \in 0..255}
   \cup {[l |-> l, d |-> d, n |-> n] : l \in {1, 2}, d \in {0, 40}, n \in {0, 1, 3, 4}}
   \cup {[l |-> l, d |-> d, n |-> 2] : l \in {0, 3, 255}, d \in {0, 10, 40, 255}}
ThoroughAlerts == {[l |-> l, d |-> d, n |-> 2] : l \in 0..255, d \in 0..255}
   \cup {[l |-> l, d |-> d, n |-> n] : l \in L, d \in {0, 10, 40, 90, 255}, n \in {0, 1, 3, 4, 64, 1000}}
=============================================================================
