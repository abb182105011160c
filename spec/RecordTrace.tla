---------------------------- MODULE RecordTrace ----------------------------
(***************************************************************************)
(* What the AEADs of the two endpoints of a connection may do.  Each trace *)
(* is recorded from the real code: one event per record protected ("seal") *)
(* or successfully opened ("open"), with the key (numbered by first        *)
(* appearance), the epoch, the sequence number in the nonce (-1: not of    *)
(* the form iv xor number) and whether the record is a KeyUpdate.  TLC     *)
(* steps through every trace; "bad" names the first rule a trace breaks.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES t, i, nx, no, own, cur, bad
vars == <<t, i, nx, no, own, cur, bad>>

Traces == JsonDeserialize("traces.json")
Peer(x) == IF x = "c" THEN "s" ELSE "c"
App == 3
Nobody == [k |-> -1, ep |-> 0, ku |-> FALSE]
Empty == [x \in {} |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == /\ t \in 1..Len(Traces) /\ i = 0
        /\ nx = Empty /\ no = Empty /\ own = Empty
        /\ cur = [x \in {"c", "s"} |-> Nobody] /\ bad = ""

E == Traces[t][i + 1]
SealRule(e) ==
  LET c == cur[e.sd] IN
  IF e.q # Get(nx, e.k, 0) THEN "a nonce is not the next one of its key"
  ELSE IF e.k \in DOMAIN own /\ own[e.k] # <<e.sd, e.ep>> THEN "directions or epochs share a key"
  ELSE IF e.k # c.k /\ e.k \in DOMAIN nx THEN "an old key is used again"
  ELSE IF e.k = c.k /\ c.ku THEN "a record after a KeyUpdate uses the old key"
  ELSE IF e.k # c.k /\ c.ep >= App /\ ~c.ku THEN "the key changes without a KeyUpdate"
  ELSE IF e.ep < c.ep THEN "the epoch goes back"
  ELSE ""
OpenRule(e) ==
  IF e.q # Get(no, e.k, 0) THEN "a record is opened out of order or twice"
  ELSE IF e.k \in DOMAIN own /\ own[e.k][1] # Peer(e.sd) THEN "an endpoint opens its own direction"
  ELSE IF e.both /\ e.q >= Get(nx, e.k, 0) THEN "a record is opened that was never protected"
  ELSE ""

Step == /\ bad = "" /\ i < Len(Traces[t])
        /\ i' = i + 1 /\ UNCHANGED t
        /\ IF E.op = "seal"
           THEN /\ bad' = SealRule(E)
                /\ nx' = Set(nx, E.k, E.q + 1)
                /\ own' = Set(own, E.k, <<E.sd, E.ep>>)
                /\ cur' = [cur EXCEPT ![E.sd] = [k |-> E.k, ep |-> E.ep, ku |-> E.ku]]
                /\ UNCHANGED no
           ELSE /\ bad' = OpenRule(E)
                /\ no' = Set(no, E.k, E.q + 1)
                /\ own' = IF E.k \in DOMAIN own THEN own ELSE Set(own, E.k, <<Peer(E.sd), E.ep>>)
                /\ UNCHANGED <<nx, cur>>
Spec == Init /\ [][Step]_vars

EmitBad == bad' # "" => PrintT("CASE " \o ToJson([t |-> t, i |-> i', bad |-> bad']))
=============================================================================
