-------------------------------- MODULE Reasm --------------------------------
(* Reassembly of one handshake message from fragments that arrive in any order, *)
(* overlap, repeat, or are empty; and what an acknowledgement of the unfinished *)
(* message names.  A message is Units pieces long, a fragment is a run of them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Units, MaxFrags, Whats
VARIABLES what, have, hist, done
vars == <<what, have, hist, done>>
Fragments == {f \in [off : 0..Units, len : 0..Units] : f.off + f.len <= Units /\ (f.len = 0 => f.off \in {0, Units})}
Piece(f) == f.off..(f.off + f.len - 1)
Init == what \in Whats /\ have = {} /\ hist = <<>> /\ done = FALSE
Arrive(f) == /\ ~done /\ Len(hist) < MaxFrags
             /\ have' = have \cup (IF f.len = 0 THEN {} ELSE Piece(f))
             /\ done' = (have' = 0..(Units - 1))
             /\ hist' = Append(hist, [off |-> f.off, len |-> f.len, done |-> done'])
             /\ UNCHANGED what
Next == \E f \in Fragments : Arrive(f)
Spec == Init /\ [][Next]_vars
\* complete exactly when every piece has arrived, whatever the order
Exact == done <=> \A u \in 0..(Units - 1) : \E i \in DOMAIN hist : hist[i].len > 0 /\ u \in Piece([off |-> hist[i].off, len |-> hist[i].len])
Emit == (done \/ Len(hist) = MaxFrags) => PrintT("CASE " \o ToJson([what |-> what, units |-> Units, frags |-> hist]))
=============================================================================
