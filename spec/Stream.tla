------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Two connected endpoints: application data, key updates, end of the      *)
(* stream, and an attacker on the records in flight.  A record carries the *)
(* key generation and sequence number its sender protected it with; a      *)
(* receiver can open a record only under its own generation and sequence   *)
(* number and only if nobody touched it.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxOps, MaxAtt, Sizes, AttKinds, Closes, Emit
VARIABLES S, hist, att, fin
vars == <<S, hist, att, fin>>

Sides == {"c", "s"}
Peer(x) == IF x = "c" THEN "s" ELSE "c"

\* gen/seq: protection of what is sent next; rgen/rseq: of what is expected next
\* wr: chunks written, rd: chunks delivered, ku: KeyUpdates sent, req: requests received
Endpoint == [gen |-> 0, seq |-> 0, rgen |-> 0, rseq |-> 0, wr |-> <<>>, rd |-> <<>>, st |-> "ok", ku |-> 0, own |-> 0, req |-> 0]

Init == /\ S = [ep |-> [x \in Sides |-> Endpoint], net |-> [x \in Sides |-> <<>>], old |-> [x \in Sides |-> <<>>]]
        /\ hist = <<>> /\ att = 0 /\ fin = FALSE

Put(T, x, t, v) == [T EXCEPT !.net[x] = Append(@, [t |-> t, g |-> T.ep[x].gen, s |-> T.ep[x].seq, v |-> v, m |-> 0]),
                             !.ep[x].seq = @ + 1]
PutKU(T, x, req) == LET U == Put(T, x, "ku", req) IN
                    [U EXCEPT !.ep[x].gen = @ + 1, !.ep[x].seq = 0, !.ep[x].ku = @ + 1]

\* x reads everything that has arrived.
RECURSIVE Drain(_, _)
Drain(T, x) ==
  LET y == Peer(x) IN
  IF T.ep[x].st # "ok" \/ T.net[y] = <<>> THEN T
  ELSE LET r == Head(T.net[y])
           U == [T EXCEPT !.net[y] = Tail(@), !.old[y] = IF r.m = 0 THEN Append(@, r) ELSE @]
           e == T.ep[x] IN
       IF r.t = "fin" THEN [U EXCEPT !.ep[x].st = "end"]
       ELSE IF r.m # 0 \/ r.g # e.rgen \/ r.s # e.rseq THEN [U EXCEPT !.ep[x].st = "err"]
       ELSE IF r.t = "data" THEN Drain([U EXCEPT !.ep[x].rseq = @ + 1, !.ep[x].rd = Append(@, r.v)], x)
       ELSE LET V == [U EXCEPT !.ep[x].rgen = @ + 1, !.ep[x].rseq = 0, !.ep[x].req = @ + r.v] IN
            Drain(IF r.v = 1 THEN PutKU(V, x, 0) ELSE V, x)

Log(a, x, n) == hist' = Append(hist, [a |-> a, x |-> x, n |-> n, st |-> S'.ep[x].st, rd |-> S'.ep[x].rd, ku |-> S'.ep[x].ku])
Can(x) == S.ep[x].st = "ok" /\ Len(hist) < MaxOps /\ ~fin

Write(x, z) == /\ Can(x) /\ S.ep[Peer(x)].st \in {"ok", "err"}
               /\ LET id == Len(S.ep[x].wr) + 1
                      T  == [S EXCEPT !.ep[x].wr = Append(@, id)] IN
                  S' = IF z = "z" THEN T ELSE Put(T, x, "data", id)
               /\ Log("W", x, z) /\ UNCHANGED <<att, fin>>
Update(x, r) == /\ Can(x) /\ S.ep[Peer(x)].st \in {"ok", "err"}
                /\ S' = [PutKU(S, x, r) EXCEPT !.ep[x].own = @ + 1]
                /\ Log(IF r = 1 THEN "K1" ELSE "K0", x, "") /\ UNCHANGED <<att, fin>>
Read(x)      == Can(x) /\ S' = Drain(S, x) /\ Log("R", x, "") /\ UNCHANGED <<att, fin>>
Close(x)     == /\ Closes /\ Can(x) /\ S.ep[Peer(x)].st = "ok"
                /\ S' = [S EXCEPT !.net[x] = Append(@, [t |-> "fin", g |-> 0, s |-> 0, v |-> 0, m |-> 0]), !.ep[x].st = "closed"]
                /\ Log("C", x, "") /\ UNCHANGED <<att, fin>>

\* Sequence surgery on what x has sent and its peer has not read.
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Forged == [t |-> "forged", g |-> 0, s |-> 0, v |-> 0, m |-> 1]
Fin == [t |-> "fin", g |-> 0, s |-> 0, v |-> 0, m |-> 0]
Attacked(k, q, i, old) ==
  CASE k = "alter" -> [q EXCEPT ![i].m = 1]
    [] k = "drop"  -> Cut(q, i)
    [] k = "dup"   -> InsertAt(q, i, q[i])
    [] k = "swap"  -> [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
    [] k = "forge" -> InsertAt(q, i, Forged)
    [] k = "trunc" -> SubSeq(q, 1, i - 1) \o <<Fin>>     \* the stream ends within record i
    [] k = "old"   -> InsertAt(q, i, old[Len(old)])
    [] k = "refl"  -> InsertAt(q, i, [Forged EXCEPT !.t = "refl"])
Attack(x, k, i) ==
  /\ att < MaxAtt /\ Len(hist) < MaxOps /\ ~fin /\ S.ep[Peer(x)].st = "ok"
  /\ i <= Len(S.net[x]) /\ S.net[x][i].t # "fin" /\ S.net[x][i].m = 0
  /\ k = "swap" => i < Len(S.net[x]) /\ S.net[x][i + 1].t # "fin"
  /\ k = "old" => S.old[x] # <<>>
  /\ k = "refl" => S.net[Peer(x)] \o S.old[Peer(x)] # <<>>
  /\ S' = [S EXCEPT !.net[x] = Attacked(k, @, i, S.old[x])]
  /\ hist' = Append(hist, [a |-> "A", x |-> x, n |-> k, i |-> i])
  /\ att' = att + 1 /\ UNCHANGED fin

\* At the end both sides read until nothing moves (answers to requests are not requests).
Settle == /\ Len(hist) = MaxOps /\ ~fin
          /\ fin' = TRUE
          /\ S' = Drain(Drain(Drain(Drain(S, "c"), "s"), "c"), "s")
          /\ UNCHANGED <<hist, att>>

Next == \/ \E x \in Sides : \/ \E z \in Sizes : Write(x, z)
                            \/ \E r \in {0, 1} : Update(x, r)
                            \/ Read(x) \/ Close(x)
                            \/ \E k \in AttKinds, i \in 1..MaxOps : Attack(x, k, i)
        \/ Settle
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------- *)
\* what is delivered is a prefix of what was written (empty writes are invisible)
Prefix == \A x \in Sides :
  LET rd == S.ep[x].rd
      wr == S.ep[Peer(x)].wr IN
  /\ \A i \in 1..Len(rd) : rd[i] \in ToSet(wr)
  /\ \A i, j \in 1..Len(rd) : i < j => rd[i] < rd[j]
\* without an attack nothing fails, and at the end everything has arrived and keys are in lockstep
Undisturbed == att = 0 =>
  /\ \A x \in Sides : S.ep[x].st # "err"
  /\ fin /\ (\A x \in Sides : S.ep[x].st = "ok") =>
       \A x \in Sides : /\ S.net[x] = <<>> /\ S.ep[x].gen = S.ep[Peer(x)].rgen /\ S.ep[x].seq = S.ep[Peer(x)].rseq
                        /\ S.ep[x].ku = S.ep[x].own + S.ep[x].req
\* every requested update is answered by exactly one, an unrequested one by none
Answered == \A x \in Sides : S.ep[x].ku = S.ep[x].own + S.ep[x].req
\* no two records in flight share generation and sequence number unless an attacker copied one
Fresh == att = 0 => \A x \in Sides : \A i, j \in 1..Len(S.net[x]) :
  i # j /\ S.net[x][i].t # "fin" /\ S.net[x][j].t # "fin" => <<S.net[x][i].g, S.net[x][i].s>> # <<S.net[x][j].g, S.net[x][j].s>>

EmitT == Emit /\ fin' /\ ~fin =>
  PrintT("CASE " \o ToJson([h |-> hist, c |-> [st |-> S'.ep["c"].st, rd |-> S'.ep["c"].rd, ku |-> S'.ep["c"].ku, wr |-> S'.ep["c"].wr],
                                       s |-> [st |-> S'.ep["s"].st, rd |-> S'.ep["s"].rd, ku |-> S'.ep["s"].ku, wr |-> S'.ep["s"].wr]]))
=============================================================================
