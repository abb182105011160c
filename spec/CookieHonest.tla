----------------------------- MODULE CookieHonest -----------------------------
(* An honest client and a server that wants a cookie, in every style of use.    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Styles, Suites, Psks, Vals, Auths, Transports
VARIABLES c, st, hellos, hrrs, val
vars == <<c, st, hellos, hrrs, val>>
\* style: same (non-blocking, one Conn), fresh (non-blocking, a new Conn for every ClientHello), blk (blocking server),
\*        blk2 (both blocking), dflt (blocking, default protector)
\* val: none (no handler), skip (handler that asks for no retry), or the size of the application value
Init == /\ c \in [style : Styles, su : Suites, psk : Psks, val : Vals, auth : Auths, tr : Transports]
        /\ (c.psk = "early" => c.style \notin {"blk2"})
        /\ st = "start" /\ hellos = 0 /\ hrrs = 0 /\ val = "-"
Hello == st \in {"start", "retry"} /\ hellos' = hellos + 1 /\ st' = "hello" /\ UNCHANGED <<c, hrrs, val>>
\* first answer
Retry == st = "hello" /\ hrrs = 0 /\ c.val # "skip" /\ hrrs' = 1 /\ st' = "retry" /\ UNCHANGED <<c, hellos, val>>
Accept == st = "hello" /\ (hrrs = 1 \/ c.val = "skip") /\ st' = "done" /\ val' = c.val /\ UNCHANGED <<c, hellos, hrrs>>
Next == Hello \/ Retry \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnceOnly == hrrs <= 1 /\ hellos <= 2
Done == <>(st = "done")
Intact == st = "done" => val = c.val
\* the PSK belongs to suite a: without it the client has nothing to offer the PSK with
Usable == c.psk # "none" /\ \E i \in DOMAIN c.su : c.su[i] = "a"
Result == [c |-> c, hellos |-> hellos, hrrs |-> hrrs,
           suite |-> IF Usable THEN "a" ELSE c.su[1], res |-> Usable,
           early |-> Usable /\ c.psk = "early" /\ hrrs = 0]
Emit == st = "done" => PrintT("CASE " \o ToJson(Result))
=============================================================================
