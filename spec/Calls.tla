-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* What the caller of an endpoint may see, whatever the peer sends (C14).  *)
(*                                                                         *)
(* st   "hs" handshaking, "conn" connected, "over" failed or closed        *)
(* net  "open": more input may come; "ended": the transport has reported   *)
(*      its end or an error                                                *)
(* inp  units of undelivered input; fuel: progress the endpoint can report *)
(*      before it must take input again                                    *)
(*                                                                         *)
(* The contract is Allowed; the harness holds every call of the real code  *)
(* against it.  TLC checks that the contract keeps its promise: once the   *)
(* transport has ended, a caller that keeps calling gets to the end.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxIn, MaxFuel, Emit
VARIABLES st, net, inp, fuel, act
vars == <<st, net, inp, fuel, act>>
View == <<st, net, inp, fuel>>

Calls_   == {"H", "R", "W", "KU", "X", "C"}     \* Handshake, Read, Write, SendKeyUpdate, ComputeExporter, Close
Results == {"ok", "connected", "data", "block", "error", "end"}

\* what a call may return, and the state after it
Allowed(s, n, c) ==
  CASE c = "H" /\ s = "hs"   -> {<<"ok", "hs">>, <<"connected", "conn">>, <<"error", "over">>} \cup (IF n = "open" THEN {<<"block", "hs">>} ELSE {})
    [] c = "H" /\ s = "conn" -> {<<"connected", "conn">>}
    [] c = "H" /\ s = "over" -> {<<"error", "over">>, <<"connected", "over">>}   \* a connection that broke later had completed
    [] c = "R" /\ s = "hs"   -> {<<"data", "hs">>, <<"error", "hs">>, <<"block", "hs">>}  \* early data only
    [] c = "R" /\ s = "conn" -> {<<"data", "conn">>, <<"error", "conn">>, <<"error", "over">>, <<"end", "over">>} \cup (IF n = "open" THEN {<<"block", "conn">>} ELSE {})
    [] c = "R" /\ s = "over" -> {<<"error", "over">>, <<"end", "over">>}
    [] c \in {"W", "KU", "X", "C"} -> {<<"ok", s>>, <<"error", s>>, <<"block", s>>}

Init == st = "hs" /\ net = "open" /\ inp = 0 /\ fuel = MaxFuel /\ act = <<>>
Input == net = "open" /\ inp < MaxIn /\ inp' = inp + 1 /\ act' = <<>> /\ UNCHANGED <<st, net, fuel>>
Ended == net = "open" /\ net' = "ended" /\ act' = <<>> /\ UNCHANGED <<st, inp, fuel>>
Call(c) ==
  \E r \in Allowed(st, net, c) :
     /\ st' = r[2] /\ act' = <<c, r[1]>> /\ UNCHANGED net
     /\ IF r = <<"error", "conn">>
        THEN \* a record that does not verify may cost just that record
             inp > 0 /\ inp' = inp - 1 /\ UNCHANGED fuel
        ELSE IF r[1] \in {"ok", "data"} /\ c \in {"H", "R"}
        THEN \* progress costs fuel; input refills it
             \/ fuel > 0 /\ fuel' = fuel - 1 /\ UNCHANGED inp
             \/ inp > 0 /\ inp' = inp - 1 /\ fuel' = MaxFuel
        ELSE \/ UNCHANGED <<inp, fuel>> /\ (r[1] = "block" /\ c = "H" => inp = 0)
             \/ inp > 0 /\ inp' = inp - 1 /\ fuel' = MaxFuel
Next == Input \/ Ended \/ \E c \in Calls_ : Call(c)
\* the caller keeps handshaking and, when connected, reading
Polls == (st = "hs" /\ Call("H")) \/ (st = "conn" /\ Call("R"))
Spec == Init /\ [][Next]_vars /\ WF_vars(Polls)

TypeOK == st \in {"hs", "conn", "over"} /\ net \in {"open", "ended"} /\ inp \in 0..MaxIn /\ fuel \in 0..MaxFuel
\* the promise: no waiting on a transport that is over
NoWait == [][act' = <<"H", "block">> => net = "open"]_vars
Over   == [](net = "ended" => <>(st = "over"))
Table == Emit => \A s \in {"hs", "conn", "over"}, n \in {"open", "ended"}, c \in Calls_ :
           PrintT("CASE " \o ToJson([st |-> s, net |-> n, call |-> c, allowed |-> {[r |-> x[1], st |-> x[2]] : x \in Allowed(s, n, c)}]))
ASSUME Table
=============================================================================
