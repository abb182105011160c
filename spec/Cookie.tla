------------------------------- MODULE Cookie -------------------------------
(* Servers that demand a cookie before they commit to a handshake, against    *)
(* clients that may send any ClientHello with any cookie: their own, one that  *)
(* another client or another server was given, or a damaged one.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Insts,     \* server instances
          Prots,     \* functions: instance -> protector key
          Handlers,  \* possible handlers of an instance
          Peers, Hellos, Damages, MaxSends

VARIABLES prot, hdl, issued, wait, hist
vars == <<prot, hdl, issued, wait, hist>>

\* which suite a hello gets: its PSK's, or its first (all servers have both)
SuiteOf(h) == IF h.psk THEN "a" ELSE h.su[1]

Init == /\ prot \in Prots /\ hdl \in [Insts -> Handlers]
        /\ issued = <<>> /\ wait = {} /\ hist = <<>>

\* handlers: none (always retry, no value), addr (value bound to the peer), any (value, everything accepted),
\* deny (value, nothing accepted), skip (no retry; accepts no value), err (Generate fails)
Value(i, q) == IF hdl[i] = "addr" THEN q ELSE 0
Accepts(i, q, v) == CASE hdl[i] \in {"none", "any"} -> TRUE
                      [] hdl[i] = "addr" -> v = q
                      [] OTHER -> FALSE
Outcome(i, q, h, k, d) ==
  IF d = "none" THEN CASE hdl[i] = "skip" -> "sh" [] hdl[i] = "err" -> "fail" [] OTHER -> "hrr"
  ELSE IF d = "empty" THEN "refuse"      \* not a cookie at all: anything but going on
  ELSE IF d = "intact" /\ issued[k].prot = prot[i] /\ Accepts(i, q, issued[k].val) /\ issued[k].suite = SuiteOf(h) THEN "sh"
  ELSE "fail"

Send(i, q, h, fresh, k, d) ==
  LET o == Outcome(i, q, h, k, d) IN
  /\ fresh \/ <<i, q>> \in wait
  /\ (d \in {"none", "empty", "forged"}) <=> (k = 0)
  /\ issued' = IF o = "hrr" THEN Append(issued, [prot |-> prot[i], suite |-> SuiteOf(h), val |-> Value(i, q), inst |-> i, peer |-> q]) ELSE issued
  /\ wait' = IF o = "hrr" THEN wait \cup {<<i, q>>} ELSE wait \ {<<i, q>>}
  /\ hist' = Append(hist, [i |-> i, q |-> q, su |-> h.su, psk |-> h.psk, fresh |-> fresh, k |-> k, d |-> d, out |-> o])
  /\ UNCHANGED <<prot, hdl>>

Next == /\ Len(hist) < MaxSends
        /\ \E i \in Insts, q \in Peers, h \in Hellos, fresh \in BOOLEAN, k \in 0..Len(issued), d \in Damages : Send(i, q, h, fresh, k, d)
Spec == Init /\ [][Next]_vars

\* a server goes on only for a cookie that it (its protector) issued, that its handler accepts, under the same suite
Guarded == \A n \in DOMAIN hist : hist[n].out = "sh" /\ hdl[hist[n].i] # "skip" =>
             /\ hist[n].d = "intact"
             /\ LET c == issued[hist[n].k] IN prot[c.inst] = prot[hist[n].i] /\ c.suite = SuiteOf([su |-> hist[n].su, psk |-> hist[n].psk])
                  /\ (hdl[hist[n].i] = "addr" => c.val = hist[n].q)
                  /\ hdl[hist[n].i] # "deny"
\* an honest client needs exactly one retry
OneRetry == \A n \in DOMAIN hist : \A m \in DOMAIN hist :
             n < m /\ hist[n].out = "hrr" /\ hist[m].d = "intact" /\ hist[m].i = hist[n].i /\ hist[m].q = hist[n].q
             /\ issued[hist[m].k].inst = hist[n].i /\ issued[hist[m].k].peer = hist[n].q /\ hdl[hist[n].i] # "deny"
             /\ SuiteOf([su |-> hist[m].su, psk |-> hist[m].psk]) = issued[hist[m].k].suite => hist[m].out = "sh"
Emit == (hist # <<>> /\ (Len(hist) = MaxSends \/ hist[Len(hist)].out = "refuse")) => PrintT("CASE " \o ToJson([prot |-> prot, hdl |-> hdl, hist |-> hist]))
=============================================================================
