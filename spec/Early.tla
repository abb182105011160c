------------------------------- MODULE Early -------------------------------
(* 0-RTT: a client that may hold a ticket and may be allowed to use early     *)
(* data, a server that may know the ticket, may allow early data and may      *)
(* insist on a cookie, and any interleaving of early writes, 1-RTT writes,    *)
(* polling, (partial) delivery and reading.                                   *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxSteps, MaxEarly, MaxData, Tickets

VARIABLES cf, cph, sph, c2s, s2c, cin, sin, ne, nd, ns, ebuf, srd, crd, steps
vars == <<cf, cph, sph, c2s, s2c, cin, sin, ne, nd, ns, ebuf, srd, crd, steps>>

\* ticket: none; known; unknown (the server has no such PSK)
Offered == cf.ticket # "none" /\ cf.ca
PSKUsed == cf.ticket = "known"
Accepted == Offered /\ PSKUsed /\ cf.sa /\ ~cf.cookie

Init == /\ cf \in [ticket : Tickets, ca : BOOLEAN, sa : BOOLEAN, cookie : BOOLEAN]
        /\ cph = "init" /\ sph = "init"
        /\ c2s = <<>> /\ s2c = <<>> /\ cin = <<>> /\ sin = <<>>
        /\ ne = 0 /\ nd = 0 /\ ns = 0 /\ ebuf = <<>> /\ srd = <<>> /\ crd = <<>> /\ steps = <<>>

T(k, i) == [k |-> k, i |-> i]
Log(a, ok) == steps' = Append(steps, [a |-> a, ok |-> ok, c |-> cph' = "conn", s |-> sph' = "conn", srd |-> srd', crd |-> crd'])

\* ---- the client: init, sent (early data possible), retry (after an HRR: no early data), conn
RECURSIVE CRun(_, _, _)
CRun(ph, in, out) ==
  IF ph = "init" THEN CRun("sent", in, Append(out, T("CH", 0)))
  ELSE IF ph \in {"sent", "retry"} /\ in # <<>>
       THEN IF Head(in).k = "HRR" THEN CRun("retry", Tail(in), Append(out, T("CH2", 0)))
            ELSE [ph |-> "conn", in |-> Tail(in), out |-> Append(out, T("CF", 0))]
  ELSE [ph |-> ph, in |-> in, out |-> out]

\* ---- the server: early data it does not want is skipped
RECURSIVE SRun(_, _, _, _)
SRun(ph, in, out, eb) ==
  IF in = <<>> \/ ph = "conn" THEN [ph |-> ph, in |-> in, out |-> out, eb |-> eb]
  ELSE LET m == Head(in) r == Tail(in)
       IN CASE ph = "init" /\ m.k = "CH" /\ cf.cookie -> SRun("init", r, Append(out, T("HRR", 0)), eb)
            [] ph = "init" /\ m.k = "E" -> SRun("init", r, out, eb)     \* in flight when the server retried
            [] ph = "init" -> SRun("flight", r, Append(out, T("SF", 0)), eb)
            [] ph = "flight" /\ m.k = "E" -> SRun("flight", r, out, IF Accepted THEN Append(eb, m) ELSE eb)
            [] OTHER -> [ph |-> "conn", in |-> r, out |-> out, eb |-> eb]

Un(x) == UNCHANGED x
PollC == LET r == CRun(cph, cin, c2s)
         IN /\ cph' = r.ph /\ cin' = r.in /\ c2s' = r.out
            /\ Un(<<cf, sph, s2c, sin, ne, nd, ns, ebuf, srd, crd>>) /\ Log("Pc", TRUE)
PollS == LET r == SRun(sph, sin, s2c, ebuf)
         IN /\ sph' = r.ph /\ sin' = r.in /\ s2c' = r.out /\ ebuf' = r.eb
            /\ Un(<<cf, cph, c2s, cin, ne, nd, ns, srd, crd>>) /\ Log("Ps", TRUE)
Front(q) == SubSeq(q, 1, Len(q) - 1)
Last1(q) == SubSeq(q, Len(q), Len(q))
DelC(f) == /\ s2c # <<>> /\ cin' = cin \o (IF f THEN s2c ELSE Front(s2c)) /\ s2c' = (IF f THEN <<>> ELSE Last1(s2c))
           /\ Un(<<cf, cph, sph, c2s, sin, ne, nd, ns, ebuf, srd, crd>>) /\ Log(IF f THEN "Dc" ELSE "dc", TRUE)
DelS(f) == /\ c2s # <<>> /\ sin' = sin \o (IF f THEN c2s ELSE Front(c2s)) /\ c2s' = (IF f THEN <<>> ELSE Last1(c2s))
           /\ Un(<<cf, cph, sph, s2c, cin, ne, nd, ns, ebuf, srd, crd>>) /\ Log(IF f THEN "Ds" ELSE "ds", TRUE)
\* Write by the client: early data, 1-RTT data, or refused
WriteC == \/ /\ cph = "conn" /\ nd < MaxData /\ nd' = nd + 1 /\ c2s' = Append(c2s, T("D", nd + 1)) /\ Un(ne)
             /\ Un(<<cf, cph, sph, s2c, cin, sin, ns, ebuf, srd, crd>>) /\ Log("W", TRUE)
          \/ /\ cph = "sent" /\ Offered /\ ne < MaxEarly /\ ne' = ne + 1 /\ c2s' = Append(c2s, T("E", ne + 1)) /\ Un(nd)
             /\ Un(<<cf, cph, sph, s2c, cin, sin, ns, ebuf, srd, crd>>) /\ Log("W", TRUE)
          \/ /\ (cph \in {"init", "retry"} \/ (cph = "sent" /\ ~Offered))
             /\ \A i \in DOMAIN steps : ~(steps[i].a = "W" /\ ~steps[i].ok)
             /\ Un(<<cf, cph, sph, c2s, s2c, cin, sin, ne, nd, ns, ebuf, srd, crd>>) /\ Log("W", FALSE)
WriteS == /\ sph = "conn" /\ ns < MaxData /\ ns' = ns + 1 /\ s2c' = Append(s2c, T("D", ns + 1))
          /\ Un(<<cf, cph, sph, c2s, cin, sin, ne, nd, ebuf, srd, crd>>) /\ Log("V", TRUE)
\* Read by the server: early data first, then 1-RTT data once connected
ReadS == /\ IF sph = "conn"
            THEN srd' = srd \o ebuf \o sin /\ sin' = <<>> /\ ebuf' = <<>>
            ELSE srd' = srd \o ebuf /\ ebuf' = <<>> /\ Un(sin)
         /\ sph # "init" /\ srd' # srd
         /\ Un(<<cf, cph, sph, c2s, s2c, cin, ne, nd, ns, crd>>) /\ Log("Rs", TRUE)
ReadC == /\ cph = "conn" /\ cin # <<>> /\ crd' = crd \o cin /\ cin' = <<>>
         /\ Un(<<cf, cph, sph, c2s, s2c, sin, ne, nd, ns, ebuf, srd>>) /\ Log("Rc", TRUE)

Next == /\ Len(steps) < MaxSteps
        /\ \/ (PollC /\ (cph = "init" \/ (cph # "conn" /\ cin # <<>>)))
           \/ (PollS /\ sph # "conn" /\ sin # <<>>)
           \/ DelC(TRUE) \/ DelC(FALSE) \/ DelS(TRUE) \/ DelS(FALSE)
           \/ WriteC \/ WriteS \/ ReadS \/ ReadC
Spec == Init /\ [][Next]_vars

\* ---- properties of the design
E(n) == [i \in 1..n |-> T("E", i)]
D(n) == [i \in 1..n |-> T("D", i)]
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
AllOrNothing == IsPrefix(srd, (IF Accepted THEN E(ne) ELSE <<>>) \o D(nd))
NeverRejected == ~Accepted => \A i \in DOMAIN srd : srd[i].k = "D"
EarlyOnlyOffered == ~Offered => ne = 0
CompleteStream == (cph = "conn" /\ sph = "conn" /\ c2s = <<>> /\ sin = <<>> /\ ebuf = <<>>) =>
                  srd = (IF Accepted THEN E(ne) ELSE <<>>) \o D(nd)
ClientReads == IsPrefix(crd, D(ns))
Emit == Len(steps) = MaxSteps =>
        PrintT("CASE " \o ToJson([cf |-> cf, steps |-> steps, acc |-> Accepted, psk |-> PSKUsed, ne |-> ne, nd |-> nd, ns |-> ns]))
=============================================================================
