------------------------------ MODULE Negotiate ------------------------------
(***************************************************************************)
(* Parameter negotiation of one handshake between an honest client and an  *)
(* honest server, as a function of the two configurations.  Sequences are   *)
(* preference lists.  The steps follow the messages: ClientHello,           *)
(* ServerHello (suite, PSK, group), server authentication, application      *)
(* protocol, client authentication.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Emit
VARIABLES c, ph, r
vars == <<c, ph, r>>

(* c = [cli |-> [suites, groups, alpn, schemes, sni, psk, next, res, modes, certs],
        srv |-> [suites, groups, alpn, certs, knows, modes, auth, schemes]]
   psk is "" or the suite of the PSK the client holds for this server, next its
   application protocol, res whether it comes from a ticket.                 *)

Common(p, q) == SelectSeq(p, LAMBDA x : x \in Range(q))   \* p's order
FirstOr(q, d) == IF q = <<>> THEN d ELSE q[1]

(* Signature schemes and the keys they fit. *)
Fits(sch, key) ==
  \/ sch \in {"pss256", "pss384", "pss512"} /\ key = "rsa"
  \/ sch = "ecdsa256" /\ key = "p256"
  \/ sch = "ecdsa384" /\ key = "p384"
  \/ sch = "ecdsa521" /\ key = "p521"

\* Certificates are [names, key]; selection: the first certificate of the list that has
\* a scheme, with the first scheme of the verifier's list that fits its key.
Schemes(cert, schemes) == SelectSeq(schemes, LAMBDA s : Fits(s, cert.key))
PickIdx(certs, schemes, ok(_)) ==
  LET I == {i \in 1..Len(certs) : ok(certs[i]) /\ Schemes(certs[i], schemes) # <<>>} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

R0 == [ok |-> FALSE, suite |-> "", group |-> "", psk |-> FALSE, alpn |-> "", cert |-> 0, scheme |-> "",
       ccert |-> 0, cscheme |-> "", sentpsk |-> FALSE, offered |-> <<>>]

\* The ClientHello: a PSK that none of the client's suites can use is not offered, and a
\* PSK narrows the offered suites to those it can be used with.
SendHello ==
  /\ ph = "start"
  /\ LET off == c.cli.psk # "" /\ c.cli.psk \in Range(c.cli.suites) IN
     r' = [R0 EXCEPT !.sentpsk = off, !.offered = IF off THEN <<c.cli.psk>> ELSE c.cli.suites]
  /\ ph' = "hello"
  /\ UNCHANGED c

Modes == Range(c.cli.modes) \cap Range(c.srv.modes)
Groups == Common(c.cli.groups, c.srv.groups)

ServerHello ==
  /\ ph = "hello"
  /\ LET canPSK == r.sentpsk /\ c.srv.knows /\ c.cli.psk \in Range(c.srv.suites)
         canDH  == Groups # <<>>
         psk    == canPSK /\ ("ke" \in Modes \/ ("dhe" \in Modes /\ canDH))
         dh     == canDH /\ ("dhe" \in Modes \/ ~psk)
         suite  == IF psk THEN c.cli.psk ELSE FirstOr(Common(r.offered, c.srv.suites), "") IN
     IF suite = "" \/ (~psk /\ ~dh)
     THEN ph' = "fail" /\ UNCHANGED r
     ELSE /\ ph' = IF psk THEN "alpn" ELSE "auth"
          /\ r' = [r EXCEPT !.psk = psk, !.suite = suite, !.group = IF dh THEN Groups[1] ELSE ""]
  /\ UNCHANGED c

ServerAuth ==
  /\ ph = "auth"
  /\ LET i == PickIdx(c.srv.certs, c.cli.schemes, LAMBDA x : c.cli.sni \in Range(x.names)) IN
     IF i = 0 THEN ph' = "fail" /\ UNCHANGED r
     ELSE /\ ph' = "alpn"
          /\ r' = [r EXCEPT !.cert = i, !.scheme = Schemes(c.srv.certs[i], c.cli.schemes)[1]]
  /\ UNCHANGED c

\* A PSK is bound to the application protocol of its origin.
ALPN ==
  /\ ph = "alpn"
  /\ LET common == IF r.psk THEN SelectSeq(Common(c.cli.alpn, c.srv.alpn), LAMBDA p : p = c.cli.next)
                   ELSE Common(c.cli.alpn, c.srv.alpn) IN
     IF common = <<>> /\ r.psk /\ c.cli.res /\ c.cli.next # "" /\ c.cli.alpn # <<>>
     THEN ph' = "fail" /\ UNCHANGED r
     ELSE /\ r' = [r EXCEPT !.alpn = FirstOr(common, "")]
          /\ ph' = IF c.srv.auth /\ ~r.psk THEN "cauth" ELSE "done"
  /\ UNCHANGED c

ClientAuth ==
  /\ ph = "cauth"
  /\ LET i == PickIdx(c.cli.certs, c.srv.schemes, LAMBDA x : TRUE) IN
     r' = [r EXCEPT !.ccert = i, !.cscheme = IF i = 0 THEN "" ELSE Schemes(c.cli.certs[i], c.srv.schemes)[1]]
  /\ ph' = "done"
  /\ UNCHANGED c

Finish ==
  /\ ph \in {"done", "fail"}
  /\ ph' = "end"
  /\ r' = [r EXCEPT !.ok = (ph = "done")]
  /\ UNCHANGED c

\* the initial states, one per pair of configurations, are enumerated by the model that extends this
Start(x) == c = x /\ ph = "start" /\ r = R0
Next == SendHello \/ ServerHello \/ ServerAuth \/ ALPN \/ ClientAuth \/ Finish
Step == [][Next]_vars /\ WF_vars(Next)

(* ---- properties, stated without reference to the steps ------------------ *)
Done == ph = "end" /\ r.ok
CS == Range(c.cli.suites) \cap Range(c.srv.suites)
CG == Range(c.cli.groups) \cap Range(c.srv.groups)
Idx(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
\* everything that was selected is configured on both sides
Inside == Done =>
  /\ r.suite \in CS
  /\ r.group \in CG \cup {""}
  /\ r.alpn \in (Range(c.cli.alpn) \cap Range(c.srv.alpn)) \cup {""}
  /\ r.psk => c.srv.knows /\ r.suite = c.cli.psk /\ Modes # {}
  /\ r.psk /\ r.group = "" => "ke" \in Modes
  /\ r.psk /\ r.group # "" => "dhe" \in Modes
  /\ ~r.psk => r.group # ""
  /\ r.cert > 0 => /\ c.cli.sni \in Range(c.srv.certs[r.cert].names)
                   /\ r.scheme \in Range(c.cli.schemes) /\ Fits(r.scheme, c.srv.certs[r.cert].key)
  /\ (r.cert = 0) <=> r.psk
  /\ r.ccert > 0 => r.cscheme \in Range(c.srv.schemes) /\ Fits(r.cscheme, c.cli.certs[r.ccert].key)
\* nothing preferable was passed over
Preferred == Done =>
  /\ ~r.psk => \A x \in Range(r.offered) \cap CS : Idx(c.cli.suites, r.suite) <= Idx(c.cli.suites, x)
  /\ r.group # "" => \A x \in CG : Idx(c.cli.groups, r.group) <= Idx(c.cli.groups, x)
  /\ ~r.psk /\ r.alpn # "" => \A x \in Range(c.cli.alpn) \cap Range(c.srv.alpn) : Idx(c.cli.alpn, r.alpn) <= Idx(c.cli.alpn, x)
\* common ground is found, and only common ground
Usable == \E i \in 1..Len(c.srv.certs) : c.cli.sni \in Range(c.srv.certs[i].names) /\ \E s \in Range(c.cli.schemes) : Fits(s, c.srv.certs[i].key)
Complete == ph = "end" /\ ~r.sentpsk => (r.ok <=> (CS # {} /\ CG # {} /\ Usable))
AlpnFound == Done /\ ~r.psk => (r.alpn = "" <=> Range(c.cli.alpn) \cap Range(c.srv.alpn) = {})
Resumes == ph = "end" /\ r.sentpsk /\ c.srv.knows /\ c.cli.psk \in CS /\ c.cli.alpn = <<>> /\ ("ke" \in Modes \/ ("dhe" \in Modes /\ CG # {})) => r.ok /\ r.psk
Ends == <>(ph = "end")

EmitT == Emit /\ ph' = "end" => PrintT("CASE " \o ToJson([c |-> c, r |-> r']))
=============================================================================
