-------------------------------- MODULE Dtls --------------------------------
(* The DTLS handshake over a network that loses, duplicates, delays and        *)
(* reorders datagrams: fragments, reassembly, flights, retransmission timers   *)
(* and acknowledgements of both endpoints.  The two timers are 4 ticks         *)
(* (retransmission) and 1 tick (acknowledgement).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Modes, MaxSteps, MaxLoss, MaxDup, MaxTicks, MaxData

VARIABLES mode, sys, hist
vars == <<mode, sys, hist>>

\* ---- what is sent: type, epoch, number of fragments
M(t, ep, nf) == [t |-> t, ep |-> ep, nf |-> nf]
CMsgs(m) == CASE m \in {"psk", "cert"} -> <<M("CH", 0, 1), M("Fin", 2, 1)>>
              [] m = "bigch" -> <<M("CH", 0, 2), M("Fin", 2, 1)>>
              [] m = "cauth" -> <<M("CH", 0, 1), M("Cert", 2, 2), M("CV", 2, 1), M("Fin", 2, 1)>>
              [] m = "cookie" -> <<M("CH", 0, 1), M("CH2", 0, 1), M("Fin", 2, 1)>>
              [] m = "bigcookie" -> <<M("CH", 0, 2), M("CH2", 0, 3), M("Fin", 2, 1)>>
SMsgs(m) == CASE m = "psk" -> <<M("SH", 0, 1), M("EE", 2, 1), M("Fin", 2, 1)>>
              [] m = "bigch" -> <<M("SH", 0, 1), M("EE", 2, 1), M("Fin", 2, 1)>>
              [] m = "cert" -> <<M("SH", 0, 1), M("EE", 2, 1), M("Cert", 2, 3), M("CV", 2, 1), M("Fin", 2, 1)>>
              [] m = "cauth" -> <<M("SH", 0, 1), M("EE", 2, 1), M("CR", 2, 1), M("Cert", 2, 1), M("CV", 2, 1), M("Fin", 2, 1)>>
              [] m = "cookie" -> <<M("HRR", 0, 1), M("SH", 0, 1), M("EE", 2, 1), M("Fin", 2, 1)>>
              [] m = "bigcookie" -> <<M("HRR", 0, 2), M("SH", 0, 1), M("EE", 2, 1), M("Fin", 2, 1)>>
Msgs(md, who) == IF who = "c" THEN CMsgs(md) ELSE SMsgs(md)
Other(who) == IF who = "c" THEN "s" ELSE "c"

\* ---- endpoints
Fresh == [nin |-> 1, frs |-> {}, rd |-> 0, wr |-> 0, out |-> <<>>, nout |-> 1, acked |-> {}, sent |-> {},
          rcvd |-> <<>>, rt |-> 0, rts |-> FALSE, ak |-> 0, aks |-> FALSE, waiting |-> TRUE, conn |-> FALSE, sq |-> [e \in {0, 2, 3} |-> 0]]
\* new datagrams are collected in the field tx
Blank == [c |-> [Fresh EXCEPT !.conn = FALSE], s |-> Fresh, net |-> [c |-> <<>>, s |-> <<>>], now |-> 0, tx |-> [c |-> <<>>, s |-> <<>>], got |-> [c |-> <<>>, s |-> <<>>]]

\* put one datagram on the wire
Put(st, w, d) ==
  LET e == st[w]
      dd == [d EXCEPT !.seq = e.sq[d.ep]]
      e2 == [e EXCEPT !.sq[d.ep] = @ + 1, !.sent = IF d.k = "hs" THEN @ \cup {[ep |-> d.ep, seq |-> e.sq[d.ep], m |-> d.m, f |-> d.f]} ELSE @]
  IN [st EXCEPT ![w] = e2, !.tx[w] = Append(@, dd)]
Hs(ep, m, f) == [k |-> "hs", ep |-> ep, seq |-> 0, m |-> m, f |-> f, r |-> <<>>]
RECURSIVE PutAll(_, _, _)
PutAll(st, w, ds) == IF ds = <<>> THEN st ELSE PutAll(Put(st, w, Head(ds)), w, Tail(ds))
\* the fragments of the queued messages that have not been acknowledged
RECURSIVE Frags(_, _, _, _)
Frags(md, w, e, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET m == Head(q) IN LET x == Msgs(md, w)[m]
       IN SelectSeq([f \in 1..x.nf |-> Hs(x.ep, m, f)], LAMBDA d : <<m, d.f>> \notin e.acked) \o Frags(md, w, e, Tail(q))
SendQueued(md, st, w) == PutAll(st, w, Frags(md, w, st[w], st[w].out))
StartRt(st, w) == [st EXCEPT ![w].rt = st.now, ![w].rts = TRUE]
\* send messages a..b as a flight
Flight(md, st, w, a, b) ==
  LET st1 == [st EXCEPT ![w].out = @ \o [i \in 1..(b - a + 1) |-> a + i - 1]] IN StartRt(SendQueued(md, st1, w), w)
SendAck(st, w) == Put(st, w, [k |-> "ack", ep |-> st[w].wr, seq |-> 0, m |-> 0, f |-> 0, r |-> st[w].rcvd])
EndOfFlight(st, w) == [st EXCEPT ![w].frs = {}, ![w].waiting = TRUE, ![w].rcvd = <<>>, ![w].aks = FALSE]

ProcessAck(md, st, w, recs) ==
  LET e == st[w]
      hit == {<<x.m, x.f>> : x \in {y \in e.sent : \E i \in DOMAIN recs : recs[i] = <<y.ep, y.seq>>}}
      st1 == [st EXCEPT ![w].rts = FALSE, ![w].acked = @ \cup hit]
      left == Frags(md, w, st1[w], st1[w].out)
  IN IF left = <<>> THEN [st1 EXCEPT ![w].out = <<>>] ELSE StartRt(SendQueued(md, st1, w), w)

Last(md, w) == Len(Msgs(md, w))
\* the effect of message m of the other side having been received completely
Effect(md, st, w, m) ==
  LET t == Msgs(md, Other(w))[m].t IN
  IF w = "c" THEN
    CASE t = "HRR" -> Flight(md, EndOfFlight(st, w), w, 2, 2)
      [] t = "SH" -> [st EXCEPT !.c.rd = 2, !.c.wr = 2]
      [] t = "Fin" -> LET first == IF Msgs(md, "c")[2].t = "CH2" THEN 3 ELSE 2
                          s1 == Flight(md, EndOfFlight(st, w), w, first, Last(md, "c"))
                      IN [s1 EXCEPT !.c.rd = 3, !.c.wr = 3, !.c.conn = TRUE]
      [] OTHER -> st
  ELSE
    CASE t = "CH" /\ Msgs(md, "s")[1].t = "HRR" -> Flight(md, EndOfFlight(st, w), w, 1, 1)
      [] t \in {"CH", "CH2"} -> LET first == IF t = "CH2" THEN 2 ELSE 1
                                   s1 == Flight(md, EndOfFlight(st, w), w, first, Last(md, "s"))
                               IN [s1 EXCEPT !.s.rd = 2, !.s.wr = 3]
      [] t = "Fin" -> LET s1 == SendAck([st EXCEPT !.s.aks = FALSE], w) IN [s1 EXCEPT !.s.rd = 3, !.s.conn = TRUE]
      [] OTHER -> st
Complete(md, st, w) ==
  LET e == st[w] IN e.nin <= Last(md, Other(w)) /\ \A f \in 1..Msgs(md, Other(w))[e.nin].nf : <<e.nin, f>> \in e.frs
RECURSIVE Advance(_, _, _)
Advance(md, st, w) ==
  IF ~Complete(md, st, w) \/ st[w].conn THEN st
  ELSE LET m == st[w].nin
           st1 == [st EXCEPT ![w].nin = m + 1, ![w].frs = {x \in @ : x[1] > m}]
       IN Advance(md, Effect(md, st1, w, m), w)

Receive(md, st, w, d) ==
  LET e == st[w] IN
  IF d.k = "app" THEN (IF d.ep = e.rd THEN [st EXCEPT !.got[w] = Append(@, d.m)] ELSE st)
  ELSE IF d.k = "ack" THEN (IF (e.conn /\ d.ep # e.rd) \/ d.ep > e.rd THEN st ELSE ProcessAck(md, st, w, d.r))
  ELSE IF d.ep # e.rd THEN st
  ELSE LET st0 == [st EXCEPT ![w].rcvd = Append(@, <<d.ep, d.seq>>)] IN
       IF d.m < e.nin THEN st0
       ELSE LET st1 == IF e.waiting THEN [st0 EXCEPT ![w].out = <<>>, ![w].rts = FALSE, ![w].waiting = FALSE] ELSE st0
                st2 == IF e.aks THEN st1 ELSE [st1 EXCEPT ![w].ak = st.now, ![w].aks = TRUE]
            IN Advance(md, [st2 EXCEPT ![w].frs = @ \cup {<<d.m, d.f>>}], w)

\* timers, in the order of their deadlines
DueRt(st, w) == st[w].rts /\ st.now - st[w].rt >= 4
DueAk(st, w) == st[w].aks /\ st.now - st[w].ak >= 1
FireRt(md, st, w) == IF DueRt(st, w) THEN StartRt(SendQueued(md, st, w), w) ELSE st
FireAk(st, w) == IF DueAk(st, w) THEN SendAck([st EXCEPT ![w].aks = FALSE], w) ELSE st
Timers(md, st, w) == IF 26 * st[w].rt + 100 < 26 * st[w].ak + 25 THEN FireAk(FireRt(md, st, w), w) ELSE FireRt(md, FireAk(st, w), w)

Begin(st) == [st EXCEPT !.tx = [c |-> <<>>, s |-> <<>>]]
\* what was sent goes into the network
End(st) == [st EXCEPT !.net = [c |-> @.c \o st.tx.c, s |-> @.s \o st.tx.s]]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* net[w] holds what w sent
DoDeliver(md, st, w, i, keep) ==
  LET d == st.net[w][i]
      st1 == IF keep THEN st ELSE [st EXCEPT !.net[w] = Without(@, i)]
  IN End(Receive(md, Begin(st1), Other(w), d))
DoDrop(st, w, i) == Begin([st EXCEPT !.net[w] = Without(@, i)])
DoTick(md, st) == End(Timers(md, Timers(md, Begin([st EXCEPT !.now = @ + 1]), "c"), "s"))
DoData(st, w, n) == End(Put(Begin(st), w, [k |-> "app", ep |-> 3, seq |-> 0, m |-> n, f |-> 0, r |-> <<>>]))
Start(md) == End(Flight(md, Begin(Blank), "c", 1, 1))

\* ---- behaviours
Brief(d) == [k |-> d.k, ep |-> d.ep, m |-> d.m, f |-> d.f]
Sum(st) == [c |-> [i \in DOMAIN st.tx.c |-> Brief(st.tx.c[i])], s |-> [i \in DOMAIN st.tx.s |-> Brief(st.tx.s[i])]]
\* milliseconds until the next timer, -1: none
Min(x, y) == IF x < y THEN x ELSE y
Remaining(st, w) ==
  LET now == 26 * st.now  r == 26 * st[w].rt + 100  k == 26 * st[w].ak + 25
  IN IF st[w].rts /\ st[w].aks THEN Min(r, k) - now ELSE IF st[w].rts THEN r - now ELSE IF st[w].aks THEN k - now ELSE 0 - 1
Entry(a, w, i, n, st) == [a |-> a, w |-> w, i |-> i, data |-> n, tx |-> Sum(st), cc |-> st.c.conn, sc |-> st.s.conn, ct |-> Remaining(st, "c"), st |-> Remaining(st, "s")]
Note(a, w, i, n, st) == hist' = Append(hist, Entry(a, w, i, n, st))
Count(a) == Cardinality({i \in DOMAIN hist : hist[i].a = a})
Handshaking(d) == d.k # "app"

Init == mode \in Modes /\ sys = Start(mode) /\ hist = <<>>
AppOf(d) == IF d.k = "app" THEN d.m ELSE 0
Deliver(w, i) == i \in DOMAIN sys.net[w] /\ sys' = DoDeliver(mode, sys, w, i, FALSE) /\ Note("deliver", w, i, AppOf(sys.net[w][i]), sys')
Dup(w, i) == i \in DOMAIN sys.net[w] /\ Handshaking(sys.net[w][i]) /\ sys' = DoDeliver(mode, sys, w, i, TRUE) /\ Note("dup", w, i, 0, sys')
Drop(w, i) == i \in DOMAIN sys.net[w] /\ Handshaking(sys.net[w][i]) /\ sys' = DoDrop(sys, w, i) /\ Note("drop", w, i, 0, sys')
Tick == sys' = DoTick(mode, sys) /\ Note("tick", "-", 0, 0, sys')
Both == sys.c.conn /\ sys.s.conn
Data(w) == Both /\ sys' = DoData(sys, w, Count("data") + 1) /\ Note("data", w, Count("data") + 1, 0, sys')
Next == /\ UNCHANGED mode /\ Len(hist) < MaxSteps
        /\ \/ \E w \in {"c", "s"}, i \in 1..20 : Deliver(w, i)
           \/ Count("dup") < MaxDup /\ \E w \in {"c", "s"}, i \in 1..20 : Dup(w, i)
           \/ Count("drop") < MaxLoss /\ \E w \in {"c", "s"}, i \in 1..20 : Drop(w, i)
           \/ Count("tick") < MaxTicks /\ Tick
           \/ Count("data") < MaxData /\ \E w \in {"c", "s"} : Data(w)
Spec == Init /\ [][Next]_vars

\* ---- properties
\* once the network behaves, the handshake completes, whatever happened before
RECURSIVE Settle(_, _, _)
Settle(md, st, n) ==
  IF st.c.conn /\ st.s.conn THEN n
  ELSE IF n = 0 THEN 0
  ELSE IF st.net.c # <<>> THEN Settle(md, DoDeliver(md, st, "c", 1, FALSE), n)
  ELSE IF st.net.s # <<>> THEN Settle(md, DoDeliver(md, st, "s", 1, FALSE), n)
  ELSE Settle(md, DoTick(md, st), n - 1)
Completes == Settle(mode, sys, 40) > 0
\* nothing acknowledged is sent again
NoResend == \A w \in {"c", "s"} : \A i \in DOMAIN sys.tx[w] : sys.tx[w][i].k = "hs" => <<sys.tx[w][i].m, sys.tx[w][i].f>> \notin sys[w].acked
\* an acknowledged fragment really was received
AckSound == \A w \in {"c", "s"} : \A x \in sys[w].acked : x[1] < sys[Other(w)].nin \/ x \in sys[Other(w)].frs
\* record numbers are unique
Unique == \A w \in {"c", "s"} : \A x, y \in sys[w].sent : (x.ep = y.ep /\ x.seq = y.seq) => x = y
\* whoever waits for an answer has a timer running, or the other one has
Alive == (~Both) => \/ sys.c.rts \/ sys.s.rts \/ sys.net.c # <<>> \/ sys.net.s # <<>> \/ sys.c.aks \/ sys.s.aks
\* a server is connected only after its client
Order == sys.s.conn => sys.c.conn
Emit == Len(hist) = MaxSteps => PrintT("CASE " \o ToJson([mode |-> mode, steps |-> hist]))
=============================================================================
