------------------------------- MODULE Styles -------------------------------
(* Two non-blocking endpoints on one transport: any schedule of polling       *)
(* either side, of delivering all or only a part of what is in flight, and of *)
(* calling Read or Write too early.  The schedule decides when the endpoints  *)
(* complete, never whether they do or with what.                              *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxSteps, MaxNoise

VARIABLES cookie, cph, sph, c2s, s2c, cin, sin, steps, noise
vars == <<cookie, cph, sph, c2s, s2c, cin, sin, steps, noise>>

Init == /\ cookie \in BOOLEAN
        /\ cph = "init" /\ sph = "init" /\ c2s = <<>> /\ s2c = <<>> /\ cin = <<>> /\ sin = <<>>
        /\ steps = <<>> /\ noise = 0

Log(a) == steps' = Append(steps, [a |-> a, c |-> cph' = "conn", s |-> sph' = "conn"])

\* one round of polling the client (until it would block)
RECURSIVE CRun(_, _, _)
CRun(ph, in, out) ==
  IF ph = "init" THEN CRun("sent", in, Append(out, "CH"))
  ELSE IF ph = "sent" /\ in # <<>>
       THEN IF Head(in) = "HRR" THEN CRun("sent", Tail(in), Append(out, "CH2"))
            ELSE [ph |-> "conn", in |-> Tail(in), out |-> Append(out, "CF")]
  ELSE [ph |-> ph, in |-> in, out |-> out]
RECURSIVE SRun(_, _, _)
SRun(ph, in, out) ==
  IF in = <<>> \/ ph = "conn" THEN [ph |-> ph, in |-> in, out |-> out]
  ELSE IF ph = "init"
       THEN IF Head(in) = "CH" /\ cookie THEN SRun("init", Tail(in), Append(out, "HRR"))
            ELSE SRun("flight", Tail(in), Append(out, "SF"))
       ELSE [ph |-> "conn", in |-> Tail(in), out |-> out]

PollC == LET r == CRun(cph, cin, c2s)
         IN cph' = r.ph /\ cin' = r.in /\ c2s' = r.out /\ UNCHANGED <<sph, sin, s2c, noise>> /\ Log("Pc")
PollS == LET r == SRun(sph, sin, s2c)
         IN sph' = r.ph /\ sin' = r.in /\ s2c' = r.out /\ UNCHANGED <<cph, cin, c2s, noise>> /\ Log("Ps")
Front(q) == SubSeq(q, 1, Len(q) - 1)
Last1(q) == SubSeq(q, Len(q), Len(q))
DelC(full) == /\ s2c # <<>>
              /\ cin' = cin \o (IF full THEN s2c ELSE Front(s2c))
              /\ s2c' = IF full THEN <<>> ELSE Last1(s2c)
              /\ UNCHANGED <<cph, sph, sin, c2s, noise>> /\ Log(IF full THEN "Dc" ELSE "dc")
DelS(full) == /\ c2s # <<>>
              /\ sin' = sin \o (IF full THEN c2s ELSE Front(c2s))
              /\ c2s' = IF full THEN <<>> ELSE Last1(c2s)
              /\ UNCHANGED <<cph, sph, cin, s2c, noise>> /\ Log(IF full THEN "Ds" ELSE "ds")
Noise(x) == /\ noise < MaxNoise /\ noise' = noise + 1
            /\ (x = "Ac" => cph # "conn") /\ (x = "As" => sph # "conn")
            /\ UNCHANGED <<cph, sph, c2s, s2c, cin, sin>> /\ Log(x)

Next == /\ Len(steps) < MaxSteps /\ ~(cph = "conn" /\ sph = "conn")
        /\ UNCHANGED cookie
        /\ \/ PollC \/ PollS
           \/ DelC(TRUE) \/ DelC(FALSE) \/ DelS(TRUE) \/ DelS(FALSE)
           \/ Noise("Ac") \/ Noise("As")
Spec == Init /\ [][Next]_vars

\* the client never completes before the server has sent its flight, the server never before the client is done
Causal == /\ sph = "conn" => cph = "conn"
          /\ cph = "conn" => sph # "init"
          /\ ~cookie => \A i \in DOMAIN s2c : s2c[i] # "HRR"
\* exactly one of: something is in flight or unread, an endpoint has not started, or both are done
Live == \/ c2s # <<>> \/ s2c # <<>> \/ cin # <<>> \/ sin # <<>> \/ cph = "init" \/ (cph = "conn" /\ sph = "conn")
Emit == (Len(steps) = MaxSteps \/ (cph = "conn" /\ sph = "conn")) => PrintT("CASE " \o ToJson([cookie |-> cookie, steps |-> steps]))
=============================================================================
