-------------------------------- MODULE Mitm --------------------------------
(***************************************************************************)
(* One handshake between two honest endpoints with an active attacker on   *)
(* the transport.  Units are the protocol's flights, split where the       *)
(* protection changes.  A unit's content is a version: 0 is what the       *)
(* sender sent, 1 an altered version, 2 the same unit of an earlier        *)
(* connection.  An endpoint that accepts a plaintext unit appends it to    *)
(* its transcript whatever its version (or refuses it: both happen,        *)
(* depending on what was altered); protected units only decrypt when the   *)
(* keys agree, which needs equal transcripts, and when nobody touched them.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Modes, MaxOps, Emit
VARIABLES mode, cli, srv, c2s, s2c, ops, last
vars == <<mode, cli, srv, c2s, s2c, ops, last>>

(* mode = [name, hrr, early]: early is "" (none offered), "acc" or "rej" *)
U(n, p, o) == [n |-> n, prot |-> p, v |-> 0, tr |-> o]
Plain(n) == n \in {"CH", "HRR", "CH2", "SH"}

\* What the client sends and expects next, by the number of units it has received.
Endp == [st |-> "run", tr |-> <<>>, i |-> 0, early |-> FALSE]
\* NST is the server's ticket, DATA stands for the first application data.
CliWants == (IF mode.hrr THEN <<"HRR">> ELSE <<>>) \o <<"SH", "SFLT", "NST", "DATA">>
SrvWants == IF mode.hrr THEN <<"CH", "CH2", "CFLT", "DATA">> ELSE <<"CH", "CFLT", "DATA">>
Answer(n) == CASE n = "CH"  -> IF mode.hrr THEN <<"HRR">> ELSE <<"SH", "SFLT">>
               [] n = "CH2" -> <<"SH", "SFLT">>
               [] n = "HRR" -> <<"CH2">>
               [] n = "SFLT" -> <<"CFLT", "DATA">>
               [] n = "CFLT" -> <<"NST", "DATA">>
               [] OTHER -> <<>>

\* Transcript after sending the units ns in order.
RECURSIVE SendAll(_, _)
SendAll(tr, ns) == IF ns = <<>> THEN <<tr, <<>>>>
                   ELSE LET t2 == IF ns[1] \in {"NST", "DATA"} THEN tr ELSE Append(tr, <<ns[1], 0>>)
                            r  == SendAll(t2, Tail(ns)) IN
                        <<r[1], <<U(ns[1], ~Plain(ns[1]), tr)>> \o r[2]>>

Init ==
  /\ mode \in Modes
  /\ LET x == SendAll(<<>>, <<"CH">>) IN
     /\ cli = [Endp EXCEPT !.tr = x[1]]
     /\ c2s = x[2] \o (IF mode.early # "" THEN <<[n |-> "EARLY", prot |-> TRUE, v |-> 0, tr |-> <<>>]>> ELSE <<>>)
  /\ srv = Endp
  /\ s2c = <<>>
  /\ ops = <<>>
  /\ last = ""

\* An endpoint e waiting for wants[i+1] gets unit u: the set of possible results <<e', sent>>.
\* What it does is decided by the unit's name, protection, version and the transcripts.
Fail(e) == {<<[e EXCEPT !.st = "fail"], <<>>>>}
\* a server that skips rejected early data cannot tell it from other records it cannot read
\* and one that sends retry requests (statelessly) skips what may be early data sent before it
Skipped(e, wants, u) ==
  IF wants = SrvWants /\ e.i < Len(wants)
     /\ \/ mode.early = "rej" /\ wants[e.i + 1] \in {"CH2", "CFLT"}
        \/ mode.hrr /\ wants[e.i + 1] \in {"CH", "CH2"} /\ u.n \in {"APP", "EARLY"}
  THEN {<<e, <<>>>>} ELSE {}
Take(e, wants, u) ==
  IF e.st = "fail" THEN {<<e, <<>>>>}
  ELSE IF u.n = "EARLY"
  THEN IF e.i = 0 \/ e.i = Len(wants) THEN Fail(e) \cup Skipped(e, wants, u)
       ELSE IF mode.early = "rej" THEN {<<e, <<>>>>} \cup (IF u.v # 0 THEN Fail(e) ELSE {}) \* skipped: not part of the handshake
       ELSE IF u.v = 0 /\ e.tr = <<<<"CH", 0>>, <<"SH", 0>>, <<"SFLT", 0>>>> /\ ~e.early THEN {<<[e EXCEPT !.early = TRUE], <<>>>>}
       ELSE Fail(e) \cup (IF e.tr # <<>> /\ e.tr[1] # <<"CH", 0>> THEN {<<e, <<>>>>} ELSE {})
  ELSE IF e.i >= Len(wants) THEN Fail(e)                    \* an error on the stream
  ELSE IF u.n = "CH" /\ wants[e.i + 1] = "CH2"
  THEN \* a server that has sent a retry request forgets the ClientHello: this one is a first again
       LET x == SendAll(<<<<"CH", u.v>>>>, <<"HRR">>) IN
       {<<[e EXCEPT !.tr = x[1]], x[2]>>} \cup (IF u.v # 0 THEN Fail(e) ELSE {})
  ELSE IF u.n # wants[e.i + 1] THEN Fail(e) \cup Skipped(e, wants, u)
  ELSE IF u.prot
  THEN \* keys, MACs and the Finished cover the transcript
       IF u.v = 0 /\ u.tr = e.tr /\ (u.n = "CFLT" /\ mode.early = "acc" => e.early)
       THEN LET t2 == IF u.n \in {"DATA", "NST"} THEN e.tr ELSE Append(e.tr, <<u.n, 0>>)
                x  == SendAll(t2, Answer(u.n))
                e2 == [e EXCEPT !.i = e.i + 1, !.tr = x[1]] IN
            {<<IF e2.i = Len(wants) THEN [e2 EXCEPT !.st = "done"] ELSE e2, x[2]>>}
       ELSE Fail(e) \cup Skipped(e, wants, u)
  ELSE LET t2 == Append(e.tr, <<u.n, u.v>>)
           x  == SendAll(t2, Answer(u.n))
           e2 == [e EXCEPT !.i = e.i + 1, !.tr = x[1]] IN
       {<<e2, x[2]>>} \cup (IF u.v # 0 THEN Fail(e) \cup {<<e, <<>>>>} ELSE {}) \* an emptied record may be ignored

\* Delivery of a list of units to one side.
CliTakes(us) ==
  IF us = <<>> THEN UNCHANGED <<cli, c2s>>
  ELSE \E a \in Take(cli, CliWants, us[1]) :
         IF Len(us) = 1 THEN cli' = a[1] /\ c2s' = c2s \o a[2]
         ELSE \E b \in Take(a[1], CliWants, us[2]) : cli' = b[1] /\ c2s' = c2s \o a[2] \o b[2]
SrvTakes(us) ==
  IF us = <<>> THEN UNCHANGED <<srv, s2c>>
  ELSE \E a \in Take(srv, SrvWants, us[1]) :
         IF Len(us) = 1 THEN srv' = a[1] /\ s2c' = s2c \o a[2]
         ELSE \E b \in Take(a[1], SrvWants, us[2]) : srv' = b[1] /\ s2c' = s2c \o a[2] \o b[2]

\* What the attacker makes of the unit at the head of a queue.
Kinds == {"pass", "swap", "drop", "alter", "dup", "old", "reflect", "inject", "app", "split"}
Out(k, u) ==
  CASE k = "pass"    -> <<u>>
    [] k = "drop"    -> <<>>
    [] k = "alter"   -> <<[u EXCEPT !.v = 1]>>
    [] k = "dup"     -> <<u, u>>
    [] k = "old"     -> <<[u EXCEPT !.v = 2]>>
    [] k = "reflect" -> <<[u EXCEPT !.n = "REFLECTED"], u>>
    [] k = "inject"  -> <<[u EXCEPT !.n = "INJECTED", !.prot = FALSE], u>>
    [] k = "app"     -> <<[u EXCEPT !.n = "APP", !.prot = FALSE], u>>
    [] k = "split"   -> <<u>>
    [] k = "swap"    -> <<u>> \* see ToClient, ToServer
Allowed(k, u) ==
  /\ k # "pass" => Len(ops) < MaxOps
  /\ u.n = "DATA" => k = "pass"
  /\ k = "split" => ~u.prot
  /\ u.n = "EARLY" => k \in {"pass", "drop", "alter", "dup"}
  /\ k = "reflect" => u.n # "CH"    \* something must have been sent by the receiver

Log(d, k, u) == IF k = "pass" THEN ops ELSE Append(ops, [d |-> d, k |-> k, u |-> u.n])

ToClient == \E k \in Kinds :
  /\ s2c # <<>> /\ Allowed(k, Head(s2c))
  /\ LET u == Head(s2c) IN
     /\ IF k = "swap" THEN /\ Len(s2c) > 1
                           /\ s2c' = Tail(Tail(s2c))
                           /\ CliTakes(<<s2c[2], u>>)
        ELSE s2c' = Tail(s2c) /\ CliTakes(Out(k, u))
     /\ ops' = Log("s2c", k, u)
  /\ UNCHANGED <<mode, srv, last>>

ToServer == \E k \in Kinds :
  /\ c2s # <<>> /\ Allowed(k, Head(c2s))
  /\ LET u == Head(c2s) IN
     /\ IF k = "swap" THEN /\ Len(c2s) > 1
                           /\ c2s' = Tail(Tail(c2s))
                           /\ SrvTakes(<<c2s[2], u>>)
        ELSE c2s' = Tail(c2s) /\ SrvTakes(Out(k, u))
     /\ ops' = Log("c2s", k, u)
  /\ UNCHANGED <<mode, cli, last>>

Quiet == s2c = <<>> /\ c2s = <<>>
Stop == Quiet /\ last = "" /\ last' = "end" /\ UNCHANGED <<mode, cli, srv, c2s, s2c, ops>>

Next == ToClient \/ ToServer \/ Stop
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------- *)
BothDone == cli.st = "done" /\ srv.st = "done"
Harmless(o) ==
  \/ o.k = "split"
  \/ o.u = "EARLY" /\ mode.early = "rej" /\ o.k # "alter"
\* additional records that a server skipping early data may take for such
Skippable(o) == /\ mode.early = "rej"
                /\ \/ o.u \in {"CH", "CH2", "CFLT"} /\ o.k \in {"inject", "app", "reflect", "dup", "swap"}
                   \/ o.u = "EARLY"
SkippableClear(o) == /\ mode.hrr
                     /\ \/ o.u \in {"CH", "CH2"} /\ o.k = "app"
                        \/ mode.early # "" /\ o.k = "swap"
                        \* a repeated first ClientHello asks for another retry request
                        \/ \E j \in 1..Len(ops) : ops[j].u = "CH" /\ ops[j].k \in {"dup", "reflect"} /\ o.u \in {"CH", "HRR"}
\* agreement: two endpoints that complete have the same transcript
Agreement == BothDone => cli.tr = srv.tr
\* and nobody changed anything in it
Untouched == BothDone => \A i \in 1..Len(cli.tr) : cli.tr[i][2] = 0
\* every manipulation of the handshake is fatal for one side
Fatal == last = "end" /\ BothDone => \A i \in 1..Len(ops) : Harmless(ops[i]) \/ Skippable(ops[i]) \/ SkippableClear(ops[i])
\* nothing but manipulation prevents completion
Live == last = "end" /\ ~BothDone => \E i \in 1..Len(ops) : ~Harmless(ops[i])

EmitT == Emit /\ last' = "end" => PrintT("CASE " \o ToJson([mode |-> mode, ops |-> ops, both |-> BothDone]))
=============================================================================
