---------------------------- MODULE SharedConfig ----------------------------
(* Configurations are objects that connections share.  A history creates      *)
(* connections over a few Config objects, interleaves their steps, lets some   *)
(* fail or be abandoned at any point, clones Config objects and sets fields of *)
(* the copies.  What a connection does depends on what the user set in its two *)
(* Configs and on the tickets in their caches, and on nothing else.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS CProfs, SProfs,   \* what a user may set in a client/server Config
          CSets, SSets,     \* [f |-> field, v |-> value] that a user may set later
          Faults, MaxConns, MaxObjs, MaxLen

VARIABLES obj,    \* Config objects [side, p (what the user set), k (its PSK cache, 0: none yet)]
          cc, sc, \* client caches (name -> ticket), server caches (sets of tickets)
          tk,     \* tickets [suite, proto]
          con, hist
vars == <<obj, cc, sc, tk, con, hist>>

Names == {"n1", "n2"}
Eff(l, d) == IF l = <<>> THEN d ELSE l
Suites(p) == Eff(p.su, <<"a", "b">>)
Groups(p) == Eff(p.gr, <<"p256", "x25519">>)
Schemes(p) == Eff(p.sg, <<"pss256", "ecdsa256">>)
Fits(s, key) == (s = "pss256" /\ key = "rsa") \/ (s = "ecdsa256" /\ key = "p256")
CanSign(key, sg) == \E s \in Range(sg) : Fits(s, key)
Common(p, q) == SelectSeq(p, LAMBDA x : x \in Range(q))
First(q) == IF q = <<>> THEN "" ELSE q[1]

NoTk == [suite |-> "", proto |-> ""]
\* the ClientHello: which suites, and with a ticket or not
Hello(cp, list, t) ==
  IF t # NoTk /\ t.suite \in Range(list) THEN [osu |-> <<t.suite>>, off |-> t] ELSE [osu |-> list, off |-> NoTk]
\* the outcome for such a ClientHello; known: the server has the ticket
Result(cp, sp, h, known, retried) ==
  LET ss == Suites(sp)
      psk == h.off # NoTk /\ known /\ h.off.suite \in Range(ss)
      suite == IF psk THEN h.off.suite ELSE First(Common(h.osu, ss))
      full == Common(Groups(cp), Groups(sp)) # <<>> /\ CanSign(sp.cert, Schemes(cp))
      ap == Common(cp.pr, sp.pr)
      al == IF psk THEN SelectSeq(ap, LAMBDA x : x = h.off.proto) ELSE ap
      alpnfail == psk /\ h.off.proto # "" /\ cp.pr # <<>> /\ al = <<>>
  IN [ok |-> suite # "" /\ (psk \/ full) /\ ~alpnfail, suite |-> suite, psk |-> psk, proto |-> First(al),
      early |-> psk /\ cp.ea /\ sp.ea /\ ~retried,
      cert |-> ~psk /\ sp.au /\ cp.au /\ CanSign("p256", Schemes(sp))]

Init == /\ obj \in {<<[side |-> "c", p |-> a, k |-> IF a.ks THEN 1 ELSE 0, up |-> FALSE], [side |-> "s", p |-> b, k |-> IF b.ks THEN 1 ELSE 0, up |-> FALSE],
                      [side |-> "s", p |-> d, k |-> IF d.ks THEN 2 ELSE 0, up |-> FALSE]>> : a \in CProfs, b \in SProfs, d \in SProfs}
        /\ cc = <<[n \in Names |-> 0]>> /\ sc = <<{}, {}>>
        /\ tk = <<>> /\ con = <<>>
        /\ hist = <<>>

Log(e) == hist' = Append(hist, e)
T(n) == IF n = 0 THEN NoTk ELSE tk[n]

\* first use of a Config completes it with defaults, among them an empty cache
Open(c, s, f) ==
  /\ Len(con) < MaxConns /\ obj[c].side = "c" /\ obj[s].side = "s"
  /\ LET k == IF obj[c].k = 0 THEN Len(cc) + 1 ELSE obj[c].k
         t == IF obj[c].k = 0 THEN 0 ELSE cc[k][obj[c].p.nm]
         h == Hello(obj[c].p, Suites(obj[c].p), T(t))
     IN /\ obj' = [obj EXCEPT ![c].k = k, ![c].up = TRUE]
        /\ cc' = IF obj[c].k = 0 THEN Append(cc, [n \in Names |-> 0]) ELSE cc
        /\ con' = Append(con, [c |-> c, s |-> s, f |-> f, ph |-> "ch", h |-> h, t |-> IF h.off = NoTk THEN 0 ELSE t, hs |-> "",
                               r |-> [ok |-> FALSE], retried |-> FALSE])
        /\ Log([a |-> "open", i |-> Len(con) + 1, c |-> c, s |-> s, f |-> f, osu |-> h.osu, off |-> h.off # NoTk, p |-> obj[c].p])
  /\ UNCHANGED <<sc, tk>>

Answer(i, retried) ==
  LET x == con[i] cp == obj[x.c].p sp == obj[x.s].p
      known == obj[x.s].k # 0 /\ x.t \in sc[obj[x.s].k]
      r == Result(cp, sp, x.h, known, retried)
      hrr == sp.ck /\ ~retried
      ph == IF r.suite = "" THEN "failed" ELSE IF hrr THEN "hrr" ELSE IF r.ok THEN "flight" ELSE "failed"
      k == IF obj[x.s].k = 0 THEN Len(sc) + 1 ELSE obj[x.s].k
  IN /\ con' = [con EXCEPT ![i].ph = ph, ![i].r = r, ![i].hs = r.suite, ![i].retried = retried]
     /\ obj' = [obj EXCEPT ![x.s].k = k, ![x.s].up = TRUE]
     /\ sc' = IF obj[x.s].k = 0 THEN Append(sc, {}) ELSE sc
     /\ Log([a |-> "srv", i |-> i, ph |-> ph])
     /\ UNCHANGED <<cc, tk>>
SrvHello(i) == con[i].ph = "ch" /\ Answer(i, FALSE)
SrvHello2(i) == con[i].ph = "ch2" /\ Answer(i, TRUE)

CliRetry(i) ==
  /\ con[i].ph = "hrr"
  /\ LET x == con[i] t == cc[obj[x.c].k][obj[x.c].p.nm]
         h == Hello(obj[x.c].p, <<x.hs>>, T(t))
     IN con' = [con EXCEPT ![i].ph = "ch2", ![i].h = h, ![i].t = IF h.off = NoTk THEN 0 ELSE t]
  /\ Log([a |-> "cli", i |-> i, ph |-> "ch2"])
  /\ UNCHANGED <<obj, cc, sc, tk>>

CliFin(i) ==
  /\ con[i].ph = "flight"
  /\ con' = [con EXCEPT ![i].ph = IF con[i].f \in {"flipS", "alertS", "eofS"} THEN "failed" ELSE "cfin"]
  /\ Log([a |-> "cli", i |-> i, ph |-> con'[i].ph])
  /\ UNCHANGED <<obj, cc, sc, tk>>

SrvFin(i) ==
  /\ con[i].ph = "cfin"
  /\ LET x == con[i] sp == obj[x.s].p new == Len(tk) + 1 ok == x.f # "flipC"
     IN /\ con' = [con EXCEPT ![i].ph = IF ok THEN "sfin" ELSE "failed", ![i].t = IF ok /\ sp.tx THEN new ELSE 0]
        /\ tk' = IF ok /\ sp.tx THEN Append(tk, [suite |-> x.r.suite, proto |-> x.r.proto]) ELSE tk
        /\ sc' = IF ok /\ sp.tx THEN [sc EXCEPT ![obj[x.s].k] = @ \cup {new}] ELSE sc
        /\ Log([a |-> "fin", i |-> i, ph |-> con'[i].ph, r |-> x.r, tx |-> sp.tx, tl |-> sp.tl])
  /\ UNCHANGED <<obj, cc>>

CliRead(i) ==
  /\ con[i].ph = "sfin"
  /\ con' = [con EXCEPT ![i].ph = "done"]
  /\ cc' = IF con[i].t # 0 THEN [cc EXCEPT ![obj[con[i].c].k][obj[con[i].c].p.nm] = con[i].t] ELSE cc
  /\ Log([a |-> "read", i |-> i])
  /\ UNCHANGED <<obj, sc, tk>>

Clone(o) ==
  /\ Len(obj) < MaxObjs
  /\ obj' = Append(obj, obj[o])
  /\ Log([a |-> "clone", o |-> o, n |-> Len(obj) + 1])
  /\ UNCHANGED <<cc, sc, tk, con>>

Busy(o) == \E i \in DOMAIN con : con[i].ph \notin {"done", "failed"} /\ (con[i].c = o \/ con[i].s = o)
Set(o, x) ==
  /\ ~Busy(o)
  /\ obj[o].p[x.f] # x.v
  \* a Config that was used keeps the defaults it was completed with: nothing goes back to unset
  /\ (x.f \in {"su", "gr", "sg"} => x.v # <<>> \/ ~obj[o].up)
  /\ obj' = [obj EXCEPT ![o].p = [@ EXCEPT ![x.f] = x.v]]
  /\ Log([a |-> "set", o |-> o, f |-> x.f, p |-> obj'[o].p])
  /\ UNCHANGED <<cc, sc, tk, con>>

Step(i) == SrvHello(i) \/ SrvHello2(i) \/ CliRetry(i) \/ CliFin(i) \/ SrvFin(i) \/ CliRead(i)
Objs(sd) == {o \in DOMAIN obj : obj[o].side = sd}
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E c \in Objs("c"), s \in Objs("s"), f \in Faults : Open(c, s, f)
     \/ \E i \in DOMAIN con : Step(i)
     \/ \E o \in DOMAIN obj : Clone(o)
     \/ \E o \in DOMAIN obj : \E x \in IF obj[o].side = "c" THEN CSets ELSE SSets : Set(o, x)
Spec == Init /\ [][Next]_vars

\* what the user set changes only when the user sets it, and in that object only
Untouched == [][\A o \in DOMAIN obj : obj'[o].p # obj[o].p => hist'[Len(hist')].a = "set" /\ hist'[Len(hist')].o = o]_vars
\* what a connection does is what it would do alone, with the same ticket
AllResults(cp, sp) ==
  {Result(cp, sp, Hello(cp, Suites(cp), NoTk), FALSE, FALSE)} \cup
  {Result(cp, sp, Hello(cp, l, t), kn, kn /\ sp.ck) : t \in [suite : {"a", "b"}, proto : {""} \cup Range(cp.pr)], kn \in BOOLEAN,
            l \in {Suites(cp)}}
Alone == \A i \in DOMAIN con : con[i].ph \in {"flight", "cfin", "sfin"} =>
   \E r \in AllResults(obj[con[i].c].p, obj[con[i].s].p) : r.ok /\ r.suite = con[i].r.suite /\ r.psk = con[i].r.psk /\ r.proto = con[i].r.proto
NoGhosts == \A i \in DOMAIN con : con[i].ph \in {"flight", "cfin", "sfin"} /\ con[i].r.ok /\ con[i].r.psk => con[i].h.off # NoTk
Strip(r) == [ok |-> r.ok, suite |-> r.suite, psk |-> r.psk, proto |-> r.proto]
Allowed(x) == {Strip(r) : r \in AllResults(obj[x.c].p, obj[x.s].p)}
First3 == SubSeq(obj, 1, 3)
Emit == Len(hist) = MaxLen => PrintT("CASE " \o ToJson([hist |-> hist, fin |-> [o \in DOMAIN obj |-> obj[o].p],
            par |-> [i \in DOMAIN con |-> [c |-> con[i].c, s |-> con[i].s, all |-> SetToSeq(Allowed(con[i]))]]]))
=============================================================================
