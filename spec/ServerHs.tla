------------------------------ MODULE ServerHs ------------------------------
(***************************************************************************)
(* The TLS 1.3 server handshake as mint exposes it, against an arbitrary   *)
(* client.  Same conventions as ClientHs.tla: the client computes every    *)
(* MAC, binder and signature correctly for what it really sent unless the  *)
(* symbol says otherwise.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Configs, Emit
VARIABLES cfg, s, hist
vars == <<cfg, s, hist>>
View == <<cfg, s>>

(* ---- message alphabet ------------------------------------------------ *)
\* ClientHellos.  In WAIT_CH2 every ClientHello echoes the cookie, except CK.*
CHfull  == {"CH.full", "CH.unk", "CH.sid32", "CH.share2", "CH.order"}
CHpsk   == {"CH.psk", "CH.pskke", "CH.pskkens", "CH.psk2", "CH.early", "CH.early2", "CH.pskunknown", "CH.pskalt"}
CHpskX  == {"CH.pskbad", "CH.pskbadlast", "CH.psklabel", "CH.pskkey", "CH.psk2bad", "CH.pskfirst", "CH.pskcount", "CH.pskage", "CH.pskyoung"}
CHpre   == {"CH.nover", "CH.ver12", "CH.badsuite", "CH.comp", "CH.trail", "CH.sid5"}
CHpost  == {"CH.nogroup", "CH.noshare", "CH.nosni", "CH.nosig", "CH.nogroups", "CH.sniother", "CH.sigbad", "CH.offcurve"}
CKs     == {"CK.forged", "CK.foreign"}                                 \* first flight, with a made-up cookie
CK2s    == {"CK.bad", "CK.badlast", "CK.trunc", "CK.ext", "CK.none", "CK.forged", "CK.foreign", "CK.suite"}
CHs     == CHfull \cup CHpsk \cup CHpskX \cup CHpre \cup CHpost \cup CKs \cup CK2s
Chains  == {"Cert.good", "Cert.inter", "Cert.untrusted", "Cert.expired", "Cert.extra", "Cert.interUntrusted"}
Certs   == Chains \cup {"Cert.empty", "Cert@plain", "Cert+CH"}
CVs     == {"CV.ok", "CV.badsig", "CV.wrongkey", "CV.wrongctx", "CV.stale", "CV.unoffered", "CV.mismatch", "CV.empty", "CV@plain"}
Fins    == {"Fin", "Fin.bad", "Fin.badlast", "Fin.short", "Fin.long", "Fin.empty", "Fin.server", "Fin@plain", "Fin@app", "Fin+App"}
Earlys  == {"Early", "EOED", "EOED.body", "EOED+Fin", "Early.bad"}
Posts   == {"NST", "KU0", "KU1", "KU.bad", "KU.empty", "KU.long", "KU+KU", "App"}
Odd     == {"SH", "EE", "CR", "Junk", "MsgHash", "Alert.close", "Alert.fatal", "Alert.warn", "Alert.short", "App@plain", "BadRec"}
Msgs    == CHs \cup Certs \cup CVs \cup Fins \cup Earlys \cup Posts \cup Odd

Known == cfg.psk # "none"      \* the server knows the identity that PSK ClientHellos offer

(* ---- the server's step ------------------------------------------------ *)
S0 == [ph |-> "WAIT_CH", hrr |-> FALSE, psk |-> FALSE, early |-> FALSE, skip |-> FALSE,
       sent |-> FALSE, id |-> "", post |-> 0, n |-> 0]
Fail == [S0 EXCEPT !.ph = "FAILED"]

\* Is the PSK of this ClientHello the one the handshake will use?
UsesPSK(m) == Known /\ m \in {"CH.psk", "CH.pskke", "CH.pskkens", "CH.psk2", "CH.early", "CH.early2"}

\* Continue after a ClientHello that was accepted.
Negotiated(m) ==
  LET psk == UsesPSK(m)
      off == m \in {"CH.early", "CH.early2"}
      acc == m = "CH.early" /\ psk /\ cfg.early
      nxt == IF acc THEN "WAIT_EOED" ELSE IF cfg.auth # "none" /\ ~psk THEN "WAIT_CERT" ELSE "WAIT_FIN" IN
  [s EXCEPT !.ph = nxt, !.psk = psk, !.early = acc, !.skip = off /\ ~acc, !.sent = off, !.n = 0]

\* A ClientHello without regard to cookies.
Hello(m) ==
  CASE m \in CHfull                                    -> Negotiated(m)
    [] m \in {"CH.psk", "CH.pskke", "CH.psk2", "CH.early", "CH.early2", "CH.pskunknown", "CH.pskalt"} -> Negotiated(m)
    [] m = "CH.pskkens" /\ Known                       -> Negotiated(m)
    \* without a known identity a binder cannot be checked and the PSK is ignored
    [] m \in {"CH.pskbad", "CH.pskbadlast", "CH.psklabel", "CH.pskkey", "CH.psk2bad", "CH.pskage", "CH.pskyoung"} /\ ~Known -> Negotiated(m)
    [] OTHER                                           -> Fail

Passes1(m) == \* is a HelloRetryRequest due for this first ClientHello?
  \/ m \in CHfull \cup CHpsk
  \/ m \in {"CH.pskbad", "CH.pskbadlast", "CH.psklabel", "CH.pskkey", "CH.psk2bad", "CH.pskage", "CH.pskyoung"} /\ ~Known

WaitCH(m) ==
  IF cfg.cookie
  THEN IF m \in CKs THEN Fail
       ELSE IF Passes1(m) THEN [s EXCEPT !.ph = "WAIT_CH2", !.hrr = TRUE, !.sent = m \in {"CH.early", "CH.early2"}] ELSE Fail
  ELSE IF m \in CKs THEN Fail ELSE Hello(m)

WaitCH2(m) ==
  CASE m = "CK.none"                                   -> s \* no cookie: asked again
    [] m \in CK2s \cup CKs                             -> IF m = "CK.none" THEN s ELSE Fail
    [] m = "Early" /\ s.sent                           -> [s EXCEPT !.n = s.n + 1]
    [] m \in CHs                                       -> Hello(m)
    [] OTHER                                           -> Fail

AfterEarly == IF cfg.auth # "none" /\ ~s.psk THEN "WAIT_CERT" ELSE "WAIT_FIN"

WaitEOED(m) ==
  CASE m = "Early"                                     -> [s EXCEPT !.n = s.n + 1]
    [] m = "EOED"                                      -> [s EXCEPT !.ph = AfterEarly]
    [] OTHER                                           -> Fail

NoSkip == [s EXCEPT !.skip = FALSE]

WaitCert(m) ==
  CASE m = "Early" /\ s.skip                           -> [s EXCEPT !.n = s.n + 1]
    [] m = "Cert.empty"                                -> [NoSkip EXCEPT !.ph = "WAIT_FIN"]
    [] m \in Certs \ {"Cert@plain", "Cert+CH"}                    -> [NoSkip EXCEPT !.ph = "WAIT_CV", !.id = m]
    [] OTHER                                           -> Fail

WaitCV(m) ==
  CASE m = "CV.ok" /\ cfg.auth # "cbrej"               -> [s EXCEPT !.ph = "WAIT_FIN"]
    [] OTHER                                           -> Fail

WaitFin(m) ==
  CASE m = "Early" /\ s.skip                           -> [s EXCEPT !.n = s.n + 1]
    [] m = "Fin"                                       -> [NoSkip EXCEPT !.ph = "CONNECTED"]
    [] OTHER                                           -> Fail

Conn(m) ==
  CASE m \in {"KU0", "KU1", "App", "Alert.warn"}       -> [s EXCEPT !.post = s.post + 1]
    [] m = "Alert.close"                               -> [s EXCEPT !.ph = "CLOSED"]
    [] OTHER                                           -> [s EXCEPT !.ph = "BROKEN"]

\* DTLS: see ClientHs.tla
NoAdvance(m) == m \in {"Cert@plain", "Cert+CH", "CV@plain", "Fin@plain", "Fin@app", "App@plain", "BadRec"}

Recv(m) ==
  CASE cfg.dtls /\ NoAdvance(m) -> [s EXCEPT !.ph = "NOADV"]
    [] s.ph = "WAIT_CH"   -> WaitCH(m)
    [] s.ph = "WAIT_CH2"  -> WaitCH2(m)
    [] s.ph = "WAIT_EOED" -> WaitEOED(m)
    [] s.ph = "WAIT_CERT" -> WaitCert(m)
    [] s.ph = "WAIT_CV"   -> WaitCV(m)
    [] s.ph = "WAIT_FIN"  -> WaitFin(m)
    [] s.ph = "CONNECTED" -> Conn(m)

Alive == s.ph \notin {"FAILED", "CLOSED", "BROKEN", "NOADV"}
Start == s.ph \in {"WAIT_CH", "WAIT_CH2"}

\* What can be put on the wire in this situation (everything else is excluded because
\* it has no distinct meaning there, or because the order of two checks is free).
Possible(m) ==
  /\ m \in CHpost => (s.ph # "WAIT_CH" \/ ~cfg.cookie)
  /\ m \in CK2s \ CKs => s.ph = "WAIT_CH2"
  /\ m = "CK.none" => ~cfg.dtls
  \* a Certificate in the clear before the ClientHello
  /\ m = "Cert+CH" => (cfg.auth # "none" /\ (s.ph = "WAIT_CH2" \/ (s.ph = "WAIT_CH" /\ ~cfg.cookie)))
  /\ m \in {"CH.early", "CH.early2"} => (s.ph # "WAIT_CH2" /\ ~cfg.dtls)
  /\ m = "Early" => (s.sent /\ s.n < 2 /\ (s.ph \in {"WAIT_CH2", "WAIT_EOED"} \/ s.skip))
  /\ m \in {"EOED+Fin", "Early.bad"} => s.ph = "WAIT_EOED"
  /\ m \in {"Cert@plain", "CV@plain", "Fin@plain", "App@plain", "BadRec", "Fin@app", "Fin+App"} => (~Start /\ ~s.skip)
  /\ m \in {"Fin@app", "Fin+App"} => s.ph = "WAIT_FIN"
  /\ m \in {"App", "App@plain"} => ~Start
  /\ m = "App" => s.ph # "WAIT_EOED" \* that is early data
  /\ s.ph = "CONNECTED" => s.post < 2
  /\ s.ph = "WAIT_CH2" => m \notin {"CH.pskage", "CH.pskyoung"} \* same as CH.pskbad

Init == cfg \in Configs /\ s = S0 /\ hist = <<>>
Deliver(m) ==
  /\ Alive
  /\ Possible(m)
  /\ s' = Recv(m)
  /\ s' # s
  /\ hist' = Append(hist, [m |-> m, st |-> s'.ph])
  /\ UNCHANGED cfg
\* the retry loop of a client that never returns the cookie: one extra round only
NoCookie ==
  /\ s.ph = "WAIT_CH2" /\ s.post = 0 /\ ~cfg.dtls
  /\ s' = [s EXCEPT !.post = 1]
  /\ hist' = Append(hist, [m |-> "CK.none", st |-> "WAIT_CH2"])
  /\ UNCHANGED cfg
Next == NoCookie \/ \E m \in Msgs : Deliver(m)
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------- *)
Phases == {"WAIT_CH", "WAIT_CH2", "WAIT_EOED", "WAIT_CERT", "WAIT_CV", "WAIT_FIN", "CONNECTED", "FAILED", "CLOSED", "BROKEN", "NOADV"}
TypeOK == s.ph \in Phases /\ cfg \in Configs
Seen(m)   == \E i \in 1..Len(hist) : hist[i].m = m
SeenIn(M) == \E m \in M : Seen(m)
Completed == s.ph \in {"CONNECTED", "CLOSED", "BROKEN"}
HsMsgs == LET idx == {i \in 1..Len(hist) : hist[i].st = "CONNECTED"} IN
          IF idx = {} THEN <<>> ELSE
          LET k == CHOOSE i \in idx : \A j \in idx : i <= j IN
          SelectSeq([j \in 1..k |-> hist[j].m], LAMBDA m : m \notin {"Early", "CK.none"})
\* C04: the legal client flights, written down independently of the step function.
IsCH(m) == m \in CHfull \cup CHpsk \cup CHpskX
Tails == {<<"Fin">>, <<"EOED", "Fin">>, <<"Cert.empty", "Fin">>}
         \cup {<<c, "CV.ok", "Fin">> : c \in Chains}
OrderInv == Completed =>
  \E n \in {1, 2} :
    /\ Len(HsMsgs) > n
    /\ \A i \in 1..n : IsCH(HsMsgs[i])
    /\ (n = 2) <=> cfg.cookie
    /\ SubSeq(HsMsgs, n + 1, Len(HsMsgs)) \in Tails
\* C02: a reported identity implies a verified signature accepted by the callback.
AuthInv == (Completed /\ s.id # "") => Seen("CV.ok") /\ cfg.auth \in {"req", "cbok"}
AskInv  == (Completed /\ cfg.auth # "none" /\ ~s.psk) => SeenIn(Certs)
\* C11: a PSK is used only when the server knows it and the last hello proved it.
LastCH == LET idx == {i \in 1..Len(hist) : hist[i].m \in CHs \ {"CK.none"} /\ hist[i].st \in
                       {"WAIT_CH2", "WAIT_EOED", "WAIT_CERT", "WAIT_CV", "WAIT_FIN"}} IN
          IF idx = {} THEN "" ELSE hist[CHOOSE i \in idx : \A j \in idx : j <= i].m
PskInv == s.psk => Known /\ LastCH \in CHpsk \ {"CH.pskunknown", "CH.pskalt"}
\* C10
EarlyInv == s.early => cfg.early /\ s.psk /\ Seen("CH.early") /\ ~s.hrr
\* C12
CookieInv == (cfg.cookie /\ ~Start /\ s.ph # "FAILED") => s.hrr /\ LastCH \notin CK2s \cup CKs
FailFinal == [][s.ph \in {"FAILED", "CLOSED", "BROKEN", "NOADV"} => s' = s]_vars
ConnFinal == [][s.ph = "CONNECTED" => s'.ph \in {"CONNECTED", "CLOSED", "BROKEN", "NOADV"}]_vars

EmitT == Emit => PrintT("CASE " \o ToJson([cfg |-> cfg, steps |-> hist']))
=============================================================================
