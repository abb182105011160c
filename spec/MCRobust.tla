------------------------------ MODULE MCRobust ------------------------------
EXTENDS Robust
Mk(s, k) == [m |-> s, k |-> k]
CertF == <<Mk("Cert.good", "Cert"), Mk("CV.ok", "CV"), Mk("Fin", "Fin")>>
PostC == <<Mk("NST", "NST"), Mk("KU1", "KU"), Mk("App", "App")>>
PostS == <<Mk("KU1", "KU"), Mk("App", "App")>>
F(ms, d) == [msgs |-> ms, dtls |-> d]
TheFlights == [
  cfull  |-> F(<<Mk("SH.dhe", "SH"), Mk("EE.alpn", "EE"), Mk("CR", "CR")>> \o CertF \o PostC, FALSE),
  chrr   |-> F(<<Mk("HRR", "SH"), Mk("SH.psk_dhe", "SH"), Mk("EE", "EE"), Mk("Fin", "Fin")>>, FALSE),
  cearly |-> F(<<Mk("SH.psk_dhe", "SH"), Mk("EE.early", "EE"), Mk("Fin", "Fin")>> \o PostC, FALSE),
  cdfull |-> F(<<Mk("HRR", "SH"), Mk("SH.dhe", "SH"), Mk("EE.alpn", "EE"), Mk("CR", "CR")>> \o CertF \o PostC, TRUE),
  cdpsk  |-> F(<<Mk("SH.psk_ke", "SH"), Mk("EE", "EE"), Mk("Fin", "Fin")>> \o PostC, TRUE),
  sauth  |-> F(<<Mk("CH.rich", "CH")>> \o CertF \o PostS, FALSE),
  scook  |-> F(<<Mk("CH.full", "CH"), Mk("CH.psk", "CH"), Mk("Fin", "Fin")>>, FALSE),
  searly |-> F(<<Mk("CH.early", "CH"), Mk("Early", "Early"), Mk("EOED", "EOED"), Mk("Fin", "Fin")>> \o PostS, FALSE),
  sdauth |-> F(<<Mk("CH.rich", "CHd")>> \o CertF \o PostS, TRUE),
  sdcook |-> F(<<Mk("CH.full", "CHd"), Mk("CH.psk", "CHd"), Mk("Fin", "Fin")>>, TRUE) ]
Seconds == {"ins.alert", "ins.random", "byte.flip", "byte.mix", "rec.endcut", "rec.flip", "flood.again", "flood.empty.hs", "dtls.future", "dtls.ack.many",
            "dtls.total", "ins.hs.partial", "byte.cut", "dtls.hole"}
=============================================================================
