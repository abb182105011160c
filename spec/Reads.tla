-------------------------------- MODULE Reads --------------------------------
(***************************************************************************)
(* Reading on a connected endpoint.  The peer sends records of any kind;    *)
(* the transport delivers them whole or, over TLS, up to any point inside a *)
(* record; the application calls Read, with or without room, and Handshake. *)
(* A Read has data exactly when a complete record with unread data has      *)
(* arrived, however many records without data surround it; otherwise it     *)
(* has taken everything that arrived and needs more.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Modes,      \* kinds of endpoint: [role, dtls]
          MaxSend, MaxSteps
VARIABLES mode, fly, avail, part, rd, steps, sent
vars == <<mode, fly, avail, part, rd, steps, sent>>

\* d: data of one or more records, e: an empty data record, p: padded data,
\* w: a warning, k0/k1: a key update (k1 asks for one), n: a ticket, nn: two
\* tickets in one record, o: a record of an earlier epoch
Kinds(m) == {"d", "e", "p", "w"} \cup (IF m.dtls THEN {"o"} ELSE {"k0", "k1"})
            \cup (IF m.role = "client" THEN {"n"} \cup (IF m.dtls THEN {} ELSE {"nn"}) ELSE {})
HasData(k) == k \in {"d", "p"}

RECURSIVE Count(_)
Count(q) == IF q = <<>> THEN 0 ELSE (IF HasData(Head(q)) THEN 1 ELSE 0) + Count(Tail(q))

Init == /\ mode \in Modes
        /\ fly = <<>>      \* sent, not delivered
        /\ avail = <<>>    \* completely delivered, not consumed
        /\ part = FALSE    \* the first record in flight has been delivered in part
        /\ rd = 0          \* data records that reading has consumed
        /\ steps = <<>> /\ sent = 0

\* tot: data records whose last byte has arrived
Log(a) == steps' = Append(steps, [a |-> a, tot |-> rd' + Count(avail')])

Send(k) == /\ sent < MaxSend /\ sent' = sent + 1
           /\ fly' = Append(fly, k) /\ UNCHANGED <<mode, avail, part, rd>> /\ Log("S" \o k)
Deliver == /\ fly # <<>>
           /\ avail' = avail \o fly /\ fly' = <<>> /\ part' = FALSE
           /\ UNCHANGED <<mode, rd, sent>> /\ Log("D")
\* everything but the end of the last record (the whole last record, for datagrams)
Cut == /\ fly # <<>> /\ ~(part /\ Len(fly) = 1) /\ (mode.dtls => Len(fly) > 1)
       /\ avail' = avail \o SubSeq(fly, 1, Len(fly) - 1) /\ fly' = SubSeq(fly, Len(fly), Len(fly))
       /\ part' = ~mode.dtls /\ UNCHANGED <<mode, rd, sent>> /\ Log("d")

\* consume records up to and including the next one with data
RECURSIVE After(_)
After(q) == IF q = <<>> THEN <<>> ELSE IF HasData(Head(q)) THEN Tail(q) ELSE After(Tail(q))
Read == /\ rd' = rd + (IF Count(avail) > 0 THEN 1 ELSE 0) /\ avail' = After(avail)
        /\ UNCHANGED <<mode, fly, part, sent>> /\ Log("R")
\* calls that need no input and change nothing
Idle(a) == UNCHANGED <<mode, fly, avail, part, rd, sent>> /\ Log(a)

Next == /\ Len(steps) < MaxSteps
        /\ \/ \E k \in Kinds(mode) : Send(k)
           \/ steps # <<>> /\ (Deliver \/ Cut \/ Read)
           \/ \E a \in {"Z", "H"} : Idle(a) /\ steps # <<>> /\ steps[Len(steps)].a \notin {"Z", "H"}
Spec == Init /\ [][Next]_vars

\* nothing is lost and nothing comes from nowhere
Conserved == LET D == SelectSeq(steps, LAMBDA s : s.a \in {"Sd", "Sp"})
             IN rd + Count(avail) + Count(fly) = Len(D)
\* a Read never leaves complete records behind unless it returned data
Drained == steps # <<>> /\ steps[Len(steps)].a = "R" /\ avail # <<>> => rd > 0
\* what is available only grows
Grows == \A i \in 1..(Len(steps) - 1) : steps[i].tot <= steps[i + 1].tot
Useful == steps[Len(steps)].a = "R" /\ \E i \in DOMAIN steps : steps[i].a \in {"D", "d"}
Emit == (Len(steps) = MaxSteps /\ Useful) => PrintT("CASE " \o ToJson([mode |-> mode, steps |-> steps]))
=============================================================================
