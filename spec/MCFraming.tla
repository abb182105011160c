----------------------------- MODULE MCFraming -----------------------------
EXTENDS Framing
M(m, e, w) == [m |-> m, ep |-> e, wait |-> w]
MCFlights == [
  cpsk  |-> <<M("SH.psk_dhe",0,FALSE), M("EE",2,FALSE), M("Fin",2,FALSE)>>,
  ccert |-> <<M("SH.dhe",0,FALSE), M("EE",2,FALSE), M("Cert.good",2,FALSE), M("CV.ok",2,FALSE), M("Fin",2,FALSE)>>,
  ccr   |-> <<M("SH.dhe",0,FALSE), M("EE",2,FALSE), M("CR",2,FALSE), M("Cert.inter",2,FALSE), M("CV.ok",2,FALSE), M("Fin",2,FALSE)>>,
  chrr  |-> <<M("HRR",0,TRUE), M("SH.psk_ke",0,FALSE), M("EE",2,FALSE), M("Fin",2,FALSE)>>,
  cearly|-> <<M("SH.psk_dhe",0,FALSE), M("EE.early",2,FALSE), M("Fin",2,FALSE)>>,
  sfull |-> <<M("CH.full",0,TRUE), M("Fin",2,FALSE)>>,
  spsk  |-> <<M("CH.psk",0,TRUE), M("Fin",2,FALSE)>>,
  sauth |-> <<M("CH.full",0,TRUE), M("Cert.good",2,FALSE), M("CV.ok",2,FALSE), M("Fin",2,FALSE)>>,
  sempty|-> <<M("CH.full",0,TRUE), M("Cert.empty",2,FALSE), M("Fin",2,FALSE)>>,
  scook |-> <<M("CH.full",0,TRUE), M("CH.full",0,TRUE), M("Fin",2,FALSE)>>,
  searly|-> <<M("CH.early",0,TRUE), M("EOED",1,FALSE), M("Fin",2,FALSE)>>
]
=============================================================================
