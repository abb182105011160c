------------------------------ MODULE AlertsHs ------------------------------
(***************************************************************************)
(* An alert, of any level, description and size, in the place of any       *)
(* message of any legal flight (protected as that message would be).  A    *)
(* fatal alert ends the handshake with that error, a close_notify ends it, *)
(* and so does an alert that is no alert.  Warnings during the handshake   *)
(* are left open (RFC 8446 6 lets an endpoint treat them as errors).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Flights,  \* name -> [msgs |-> sequence, dtls]
          Alerts,   \* set of [l, d, n]; n: bytes
          Emit
VARIABLES fl, pos, a, res
vars == <<fl, pos, a, res>>
None == [l |-> 0, d |-> 0, n |-> 99]

Init == fl \in DOMAIN Flights /\ pos = 0 /\ a = None /\ res = "wait"
Deliver == /\ res = "wait" /\ pos < Len(Flights[fl])
           /\ pos' = pos + 1
           /\ res' = IF pos' = Len(Flights[fl]) THEN "connected" ELSE "wait"
           /\ UNCHANGED <<fl, a>>
Verdict(x) ==
  CASE x.n # 2                     -> "fail"      \* malformed
    [] x.d = 0 /\ x.l \in {1, 2}   -> "fail"      \* the peer gives up
    [] x.l = 2                     -> "alert"     \* fails with this description
    [] x.l = 1                     -> "open"
    [] OTHER                       -> "fail"
Inject == /\ res = "wait"
          /\ \E x \in Alerts : a' = x /\ res' = Verdict(x)
          /\ UNCHANGED <<fl, pos>>
Next == Deliver \/ Inject
Spec == Init /\ [][Next]_vars

\* An alert never completes a handshake, and nothing but an alert (here) ends one.
FailInv == (a # None) => res \in {"fail", "alert", "open"}
FatalInv == (a # None /\ a.n = 2 /\ a.l = 2) => res \in {"fail", "alert"} /\ (res = "alert" <=> a.d # 0)
Final == [][a # None => UNCHANGED vars]_vars
EmitT == (Emit /\ a' # None) => PrintT("CASE " \o ToJson([fl |-> fl, pos |-> pos, msgs |-> Flights[fl], a |-> a', res |-> res']))
=============================================================================
