------------------------------ MODULE ClientHs ------------------------------
(***************************************************************************)
(* The TLS 1.3 client handshake as mint exposes it, against an arbitrary   *)
(* server.  One action per server message; the message alphabet contains   *)
(* every handshake message in its legal form and in the forms an attacker  *)
(* can choose.  The server computes every MAC and signature correctly for  *)
(* the transcript it really sent, unless the variant says otherwise, so a  *)
(* client that skips an authentication step WOULD complete.                *)
(*                                                                         *)
(* cfg   what the client was configured with (fixed)                       *)
(* s     the client's protocol state                                       *)
(* hist  what happened, used only by the declarative properties and by the *)
(*       test generator (hidden from the state by VIEW)                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Configs,   \* set of configuration records
          Emit       \* TRUE: print one test per transition

VARIABLES cfg, s, hist
vars == <<cfg, s, hist>>
View == <<cfg, s>>

(* ---- message alphabet ------------------------------------------------ *)
SHs   == {"SH.dhe", "SH.psk_dhe", "SH.psk_ke", "SH.none", "SH.badgroup", "SH.offcurve",
          "SH.shortshare", "SH.unoffsuite", "SH.unknownsuite", "SH.ver12", "SH.nosv",
          "SH.legacy", "SH.pskidx1", "SH.pskhash", "SH.dhe+EE", "EE+SH.dhe"}
HRRs  == {"HRR", "HRR.nocookie", "HRR.extra", "HRR.suite"}
EEs   == {"EE", "EE.early", "EE.alpn", "EE.alpnbad", "EE@plain", "EE.frag", "EE.trail"}
CRs   == {"CR", "CR.ctx", "CR.nosig"}
\* chains that lead from a trusted root to a leaf that is valid for the name now
GoodChains == {"Cert.good", "Cert.inter", "Cert.extra"}
\* chains with one defect, with and without further certificates
BadChains  == {"Cert.nointer", "Cert.name", "Cert.untrusted", "Cert.expired", "Cert.future", "Cert.interName",
               "Cert.interExpired", "Cert.interUntrusted", "Cert.subExpired", "Cert.leafCA", "Cert.extraName", "Cert.usage"}
Certs == GoodChains \cup BadChains \cup {"Cert.empty", "Cert@plain"}
CVs   == {"CV.ok", "CV.badsig", "CV.wrongkey", "CV.wrongctx", "CV.stale", "CV.unoffered",
          "CV.mismatch", "CV.empty", "CV@plain"}
Fins  == {"Fin", "Fin.bad", "Fin.badlast", "Fin.short", "Fin.long", "Fin.empty", "Fin.client", "Fin@plain", "Fin@app",
          "Fin+NST"}
Posts == {"NST", "NST.bad", "KU0", "KU1", "KU.bad", "KU.empty", "KU.long", "KU+NST", "KU+KU", "App"}
Odd   == {"EOED", "CH", "Junk", "MsgHash", "Alert.close", "Alert.fatal", "Alert.warn", "Alert.short", "App@plain", "BadRec"}
Msgs  == SHs \cup HRRs \cup EEs \cup CRs \cup Certs \cup CVs \cup Fins \cup Posts \cup Odd

(* ---- configuration-dependent legality -------------------------------- *)
OffersPSK    == cfg.psk # "none"
DheMode      == cfg.psk \in {"both", "dhe"}
KeMode       == cfg.psk \in {"both", "ke"}

\* Does the client's configured policy accept this certificate chain?
ChainOK(c) ==
  CASE cfg.verify = "roots"     -> c \in GoodChains
    [] cfg.verify = "cbok"      -> c \in GoodChains
    [] cfg.verify = "skip"      -> c # "Cert.empty"
    [] cfg.verify = "skipcbok"  -> c # "Cert.empty"
    [] cfg.verify = "cbrej"     -> FALSE
    [] cfg.verify = "skipcbrej" -> FALSE

(* ---- the client's step ------------------------------------------------ *)
S0 == [ph |-> "WAIT_SH", hrr |-> FALSE, psk |-> FALSE, early |-> FALSE, cert |-> "", cr |-> "", post |-> 0]
Fail == [S0 EXCEPT !.ph = "FAILED"]

WaitSH(m) ==
  CASE m = "HRR" /\ ~s.hrr                         -> [s EXCEPT !.hrr = TRUE]
    [] m = "SH.dhe"                                -> [s EXCEPT !.ph = "WAIT_EE"]
    [] m = "SH.psk_dhe" /\ OffersPSK /\ DheMode    -> [s EXCEPT !.ph = "WAIT_EE", !.psk = TRUE]
    [] m = "SH.psk_ke" /\ OffersPSK /\ KeMode      -> [s EXCEPT !.ph = "WAIT_EE", !.psk = TRUE]
    [] OTHER                                       -> Fail

\* Early data was offered in the first ClientHello only: an HRR withdraws it.
EarlyOffered == cfg.early /\ OffersPSK /\ ~s.hrr

WaitEE(m) ==
  LET nxt == IF s.psk THEN "WAIT_FIN" ELSE "WAIT_CERT_CR" IN
  CASE m \in {"EE", "EE.frag"}                          -> [s EXCEPT !.ph = nxt]
    [] m = "EE.alpn" /\ cfg.alpn                   -> [s EXCEPT !.ph = nxt]
    [] m = "EE.early" /\ EarlyOffered /\ s.psk     -> [s EXCEPT !.ph = nxt, !.early = TRUE]
    [] OTHER                                       -> Fail

ParsableCert == Certs \ {"Cert@plain"}

WaitCertCR(m) ==
  CASE m \in {"CR", "CR.nosig"}                    -> [s EXCEPT !.ph = "WAIT_CERT", !.cr = m]
    [] m \in ParsableCert                          -> [s EXCEPT !.ph = "WAIT_CV", !.cert = m]
    [] OTHER                                       -> Fail

WaitCert(m) ==
  CASE m \in ParsableCert                          -> [s EXCEPT !.ph = "WAIT_CV", !.cert = m]
    [] OTHER                                       -> Fail

WaitCV(m) ==
  CASE m = "CV.ok" /\ ChainOK(s.cert)              -> [s EXCEPT !.ph = "WAIT_FIN"]
    [] OTHER                                       -> Fail

WaitFin(m) ==
  CASE m = "Fin" /\ s.cr # "CR.nosig"              -> [s EXCEPT !.ph = "CONNECTED", !.cert = IF s.psk THEN "" ELSE "ok"]
    [] OTHER                                       -> Fail

Conn(m) ==
  CASE m \in {"NST", "KU0", "KU1", "App", "Alert.warn"} -> [s EXCEPT !.post = s.post + 1]
    [] m = "Alert.close"                           -> [s EXCEPT !.ph = "CLOSED"]
    [] OTHER                                       -> [s EXCEPT !.ph = "BROKEN"]

\* DTLS: records that are not protected as the epoch demands, and records that fail
\* authentication, may be dropped or may end the handshake, but must not advance it.
NoAdvance(m) ==
  \/ m \in {"EE@plain", "Cert@plain", "CV@plain", "Fin@plain", "Fin@app", "App@plain", "BadRec"}
  \/ m = "EE+SH.dhe" /\ s.ph = "WAIT_SH"

Recv(m) ==
  CASE cfg.dtls /\ NoAdvance(m) -> [s EXCEPT !.ph = "NOADV"]
    [] s.ph = "WAIT_SH"      -> WaitSH(m)
    [] s.ph = "WAIT_EE"      -> WaitEE(m)
    [] s.ph = "WAIT_CERT_CR" -> WaitCertCR(m)
    [] s.ph = "WAIT_CERT"    -> WaitCert(m)
    [] s.ph = "WAIT_CV"      -> WaitCV(m)
    [] s.ph = "WAIT_FIN"     -> WaitFin(m)
    [] s.ph = "CONNECTED"    -> Conn(m)

Alive == s.ph \notin {"FAILED", "CLOSED", "BROKEN", "NOADV"}

Init == /\ cfg \in Configs
        /\ s = S0
        /\ hist = <<>>

\* A server message that can be put on the wire in this situation.
Possible(m) ==
  /\ m \in {"Fin@app"} => s.ph \in {"WAIT_FIN"}
  /\ m \in {"EE@plain", "Cert@plain", "CV@plain", "Fin@plain", "App@plain"} => s.ph # "WAIT_SH"
  /\ m \in {"SH.psk_dhe", "SH.psk_ke", "SH.pskidx1", "SH.pskhash"} => TRUE
  /\ m = "BadRec" => s.ph # "WAIT_SH"
  /\ s.ph = "CONNECTED" => s.post < 2

Deliver(m) ==
  /\ Alive
  /\ Possible(m)
  /\ s' = Recv(m)
  /\ hist' = Append(hist, [m |-> m, st |-> s'.ph])
  /\ UNCHANGED cfg

Next == \E m \in Msgs : Deliver(m)
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------- *)
Phases == {"WAIT_SH", "WAIT_EE", "WAIT_CERT_CR", "WAIT_CERT", "WAIT_CV", "WAIT_FIN", "CONNECTED", "FAILED", "CLOSED", "BROKEN", "NOADV"}
TypeOK == s.ph \in Phases /\ cfg \in Configs

Seen(m)    == \E i \in 1..Len(hist) : hist[i].m = m
SeenIn(M)  == \E m \in M : Seen(m)
Completed  == s.ph \in {"CONNECTED", "CLOSED", "BROKEN"}

\* The handshake part of the history, without post-handshake messages.
HsMsgs == LET idx == {i \in 1..Len(hist) : hist[i].st = "CONNECTED"} IN
          IF idx = {} THEN <<>> ELSE
          LET k == CHOOSE i \in idx : \A j \in idx : i <= j IN [j \in 1..k |-> hist[j].m]

\* The whole set of legal server flights, written down declaratively and
\* independently of the step function (C04).
LegalFlights ==
  LET H  == {<<>>, <<"HRR">>}
      Ec == {<<"EE">>, <<"EE.frag">>, <<"EE.alpn">>}
      Ep == Ec \cup {<<"EE.early">>}
      C  == {<<x>> : x \in GoodChains \cup BadChains}
      R  == {<<>>, <<"CR">>}
      Full == {h \o <<"SH.dhe">> \o e \o r \o c \o <<"CV.ok", "Fin">> : h \in H, e \in Ec, r \in R, c \in C}
      Psk  == {h \o <<k>> \o e \o <<"Fin">> : h \in H, e \in Ep, k \in {"SH.psk_dhe", "SH.psk_ke"}}
  IN Full \cup Psk

OrderInv == Completed => HsMsgs \in LegalFlights

\* C01: completion implies server authentication.
AuthInv ==
  Completed =>
    \/ /\ SeenIn({"SH.psk_dhe", "SH.psk_ke"})
       /\ OffersPSK
    \/ /\ Seen("CV.ok")
       /\ SeenIn(GoodChains) \/ cfg.verify \in {"skip", "skipcbok"}
       /\ cfg.verify \notin {"cbrej", "skipcbrej"}
FinInv == Completed => Last(HsMsgs) = "Fin"
\* C10/C06: the client never believes something it did not offer.
OfferInv ==
  /\ s.early => cfg.early /\ s.psk /\ ~s.hrr
  /\ (Completed /\ Seen("EE.alpn")) => cfg.alpn
  /\ s.psk => OffersPSK
\* C12: at most one retry.
RetryInv == Alive => Cardinality({i \in 1..Len(hist) : hist[i].m = "HRR"}) <= 1
\* C05: failure is final.
FailFinal == [][s.ph \in {"FAILED", "CLOSED", "BROKEN", "NOADV"} => s' = s]_vars
\* Completion is never undone.
ConnFinal == [][s.ph = "CONNECTED" => s'.ph \in {"CONNECTED", "CLOSED", "BROKEN", "NOADV"}]_vars

(* ---- test generation ---------------------------------------------------- *)
EmitT == Emit => PrintT("CASE " \o ToJson([cfg |-> cfg, steps |-> hist']))
=============================================================================
