----------------------------- MODULE CloneFields -----------------------------
(* Clone copies a Config field by field; afterwards the two are independent.   *)
EXTENDS FiniteSets, Naturals, Sequences, TLC, Json
CONSTANT Fields     \* the fields of the implementation's Config
VARIABLES a, b, st, c
vars == <<a, b, st, c>>
\* a value of a field: 0 is unset, 1 and 2 are two settings
Init == /\ a = [f \in Fields |-> 0] /\ b = [f \in Fields |-> 0] /\ st = "new"
        /\ c \in [set : {{f} : f \in Fields} \cup {Fields}, later : Fields, copy : BOOLEAN]
Set == st = "new" /\ a' = [f \in Fields |-> IF f \in c.set THEN 1 ELSE 0] /\ st' = "set" /\ UNCHANGED <<b, c>>
Clone == st = "set" /\ b' = a /\ st' = "cloned" /\ UNCHANGED <<a, c>>
Later == /\ st = "cloned" /\ st' = "end" /\ UNCHANGED c
         /\ IF c.copy THEN b' = [b EXCEPT ![c.later] = 2] /\ UNCHANGED a ELSE a' = [a EXCEPT ![c.later] = 2] /\ UNCHANGED b
Next == Set \/ Clone \/ Later
Spec == Init /\ [][Next]_vars
Same == st = "cloned" => a = b
Independent == st = "end" => \A f \in Fields : f # c.later => a[f] = b[f]
Emit == st = "end" => PrintT("CASE " \o ToJson([set |-> c.set, later |-> c.later, copy |-> c.copy, a |-> a, b |-> b]))
=============================================================================
