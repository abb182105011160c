------------------------------- MODULE Concur -------------------------------
(***************************************************************************)
(* Two goroutines use one connected endpoint at the same time.  Protecting *)
(* a record (take the sequence number, seal, hand to the transport) is     *)
(* atomic, and so is a KeyUpdate together with the change of the sending   *)
(* key; an operation of several records may or may not let the other       *)
(* goroutine in between ("gran").                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Ops, Emit
VARIABLES op, gran, left, lock, log, gen, seq
vars == <<op, gran, left, lock, log, gen, seq>>

Program(o, g) == CASE o = "W"  -> <<g, g, g>>        \* three records of data of goroutine g
                   [] o = "w"  -> <<g>>
                   [] o \in {"K0", "K1", "R"} -> <<"ku">> \* R answers a pending request
G == {"1", "2"}

Init == /\ op \in [G -> Ops] /\ gran \in {"op", "rec"}
        /\ left = [g \in G |-> Program(op[g], g)]
        /\ lock = "" /\ log = <<>> /\ gen = 0 /\ seq = 0
Step(g) == /\ left[g] # <<>> /\ lock \in {"", g}
           /\ log' = Append(log, [t |-> Head(left[g]), g |-> gen, s |-> seq])
           /\ left' = [left EXCEPT ![g] = Tail(@)]
           /\ IF Head(left[g]) = "ku" THEN gen' = gen + 1 /\ seq' = 0 ELSE gen' = gen /\ seq' = seq + 1
           /\ lock' = IF gran = "op" /\ left'[g] # <<>> THEN g ELSE ""
           /\ UNCHANGED <<op, gran>>
Next == \E g \in G : Step(g)
Spec == Init /\ [][Next]_vars

Done == \A g \in G : left[g] = <<>>
Unique == \A i, j \in 1..Len(log) : i < j => log[i].g < log[j].g \/
                                            (log[i].g = log[j].g /\ log[i].s < log[j].s)
NextKey == \A i \in 1..Len(log) - 1 : log[i + 1].g = log[i].g + (IF log[i].t = "ku" THEN 1 ELSE 0)
EmitT == Emit /\ (\A g \in G : left'[g] = <<>>) => PrintT("CASE " \o ToJson([a |-> op["1"], b |-> op["2"], log |-> [i \in 1..Len(log') |-> log'[i].t]]))
=============================================================================
