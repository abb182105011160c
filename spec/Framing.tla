------------------------------ MODULE Framing ------------------------------
(* How the bytes of one endpoint's handshake messages are cut into records,   *)
(* how the transport cuts the records, and when the receiving endpoint is     *)
(* called.  RFC 8446 5.1: messages may be coalesced and fragmented freely,    *)
(* but a record must not span a key change.  Whatever the framing, a flight   *)
(* that respects this completes the handshake, and one that does not fails.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Flights,   \* name -> sequence of messages [m, ep, wait]; wait: later messages depend on the answer
          Units,     \* pieces per message
          MaxInner,  \* at most this many cuts inside messages
          Apis, Segs

VARIABLES fl, api, seg, pos, cur, recs, net, buf, ep, done, st, hist, inner
vars == <<fl, api, seg, pos, cur, recs, net, buf, ep, done, st, hist, inner>>

F == Flights[fl]
NUnits == Len(F) * Units
MsgOf(u) == ((u - 1) \div Units) + 1
LastOf(u) == u % Units = 0
Ep(m) == F[m].ep

Init == /\ fl \in DOMAIN Flights /\ api \in Apis /\ seg \in Segs
        /\ pos = 1 /\ cur = <<>> /\ recs = <<>> /\ net = <<>> /\ buf = <<>>
        /\ ep = Flights[fl][1].ep /\ done = 0 /\ st = "wait" /\ hist = <<>> /\ inner = 0

\* The peer puts the next piece into the record it is filling.  A message that
\* depends on the receiver's answer cannot share a record with its predecessor.
AfterWait == pos > 1 /\ LastOf(pos - 1) /\ F[MsgOf(pos - 1)].wait
Fill == /\ st = "wait" /\ pos <= NUnits
        /\ IF AfterWait THEN cur = <<>> /\ net = <<>> /\ done = MsgOf(pos - 1) ELSE TRUE
        /\ cur' = Append(cur, pos) /\ pos' = pos + 1
        /\ UNCHANGED <<fl, api, seg, recs, net, buf, ep, done, st, hist, inner>>

\* The record is sealed under the keys of its first message and sent.
Ship == /\ cur # <<>> /\ st = "wait"
        /\ inner + (IF LastOf(pos - 1) THEN 0 ELSE 1) <= MaxInner
        /\ inner' = inner + (IF LastOf(pos - 1) THEN 0 ELSE 1)
        /\ net' = Append(net, [k |-> Ep(MsgOf(cur[1])), u |-> cur])
        /\ recs' = Append(recs, <<cur[1], pos - 1>>)
        /\ cur' = <<>>
        /\ UNCHANGED <<fl, api, seg, pos, buf, ep, done, st, hist>>

\* What the receiver does with its handshake buffer: every complete message is
\* processed; a key change with bytes left over is an error.
RECURSIVE Eat(_, _, _)
Eat(b, d, e) ==
  LET n == {i \in DOMAIN b : LastOf(b[i])}
  IN IF n = {} THEN [b |-> b, d |-> d, e |-> e, st |-> "wait"]
     ELSE LET i == CHOOSE x \in n : \A y \in n : x <= y
              rest == SubSeq(b, i + 1, Len(b))
              m == d + 1
              ne == IF m < Len(F) THEN Ep(m + 1) ELSE 99   \* after the last message the application keys
          IN IF ne # e /\ rest # <<>> THEN [b |-> rest, d |-> m, e |-> ne, st |-> "FAILED"]
             ELSE IF m = Len(F) THEN [b |-> rest, d |-> m, e |-> ne, st |-> "CONNECTED"]
             ELSE Eat(rest, m, ne)

\* the receiver takes all records that have arrived
RECURSIVE Take(_, _)
Take(s, ns) ==
  IF ns = <<>> \/ s.st # "wait" THEN s
  ELSE IF Head(ns).k # s.e THEN [s EXCEPT !.st = "FAILED"]
  ELSE Take(Eat(s.b \o Head(ns).u, s.d, s.e), Tail(ns))

Must == \/ pos > NUnits                       \* everything is out
        \/ AfterWait                         \* the peer needs the answer
Poll == /\ net # <<>> /\ cur = <<>>
        /\ api = "poll" \/ Must
        /\ LET s == Take([b |-> buf, d |-> done, e |-> ep, st |-> st], net)
           IN /\ buf' = s.b /\ done' = s.d /\ ep' = s.e /\ st' = s.st
              /\ hist' = Append(hist, [r |-> Len(recs), st |-> s.st])
        /\ net' = <<>>
        /\ UNCHANGED <<fl, api, seg, pos, cur, recs, inner>>

\* polling style: the receiver is called after every record
Next == \/ (api = "poll" /\ net # <<>>) /\ Poll
        \/ ~(api = "poll" /\ net # <<>>) /\ (Fill \/ Ship \/ Poll)
Spec == Init /\ [][Next]_vars

Legal == \A i \in DOMAIN recs : Ep(MsgOf(recs[i][1])) = Ep(MsgOf(recs[i][2]))
Finished == st # "wait"
\* the result depends on the legality of the framing and on nothing else
OutcomeOnlyLegality == /\ st = "CONNECTED" => Legal /\ pos > NUnits /\ buf = <<>>
                       /\ st = "FAILED" => ~Legal
                       /\ (pos > NUnits /\ cur = <<>> /\ net = <<>>) => st # "wait"
\* the receiver has processed exactly the messages that are complete
NoLag == (st = "wait" /\ net = <<>> /\ cur = <<>>) => done = (pos - 1) \div Units
Emit == Finished => PrintT("CASE " \o ToJson([fl |-> fl, api |-> api, seg |-> seg, recs |-> recs, hist |-> hist, st |-> st]))
=============================================================================
