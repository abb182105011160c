------------------------------ MODULE Session ------------------------------
(* Histories of connections between clients and servers that keep tickets.    *)
(* A ticket is the secret both ends derived in one connection; it is usable   *)
(* with the server that stored it, under the suite it was issued for, for the *)
(* name the client stored it under, with an exchange mode both ends allow.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients, Servers, Names, SuiteLists, Modes, Flaws, MaxConns, Cookies, Tix,
          Protos   \* [client |-> ..., server |-> ...]: the application protocols of each, in order

VARIABLES cc,     \* client -> name -> ticket number (0: none)
          sv,     \* server -> set of ticket numbers
          tk,     \* sequence of tickets [suite, server]
          hist
vars == <<cc, sv, tk, hist>>

Init == /\ cc = [c \in Clients |-> [n \in Names |-> 0]]
        /\ sv = [s \in Servers |-> {}]
        /\ tk = <<>> /\ hist = <<>>

Has(sq, x) == \E i \in DOMAIN sq : sq[i] = x
Common(a, b) == \E x \in a : x \in b
\* the application protocol of a pair: the first one of the client that the server has
Alpn(cl, sr) == LET p == SelectSeq(Protos.client[cl], LAMBDA x : Has(Protos.server[sr], x)) IN IF p = <<>> THEN "" ELSE p[1]

\* what one connection must do
Result(cl, sr, nm, su, cm, sm, fl) ==
  LET t == cc[cl][nm]
      offered == t # 0 /\ Has(su, tk[t].suite)
      known == offered /\ t \in sv[sr]
      \* aged: both copies of the ticket are equally old, which is no flaw
      flawed == offered /\ fl \notin {"none", "aged"}
      \* idswap presents a ticket of the server that this client does not hold; unk one nobody knows
      fails == flawed /\ ((fl \in {"key", "age", "ageold", "label"} /\ known) \/ (fl = "idswap" /\ sv[sr] \ {t} # {}
                       /\ \E x \in sv[sr] \ {t} : tk[x].suite = tk[t].suite))
      res == known /\ Common(cm, sm) /\ ~flawed
      suite == IF offered THEN tk[t].suite ELSE su[1]
  IN [ok |-> ~fails, psk |-> res, suite |-> suite, offered |-> offered, proto |-> Alpn(cl, sr)]

Connect(cl, sr, nm, su, cm, sm, fl, ck, tx) ==
  LET r == Result(cl, sr, nm, su, cm, sm, fl)
      new == Len(tk) + 1
      issue == r.ok /\ tx # "none"
  IN /\ (fl # "none" => r.offered)
     /\ (fl = "idswap" => ~r.ok)
     /\ tk' = IF issue THEN Append(tk, [suite |-> r.suite, server |-> sr]) ELSE tk
     /\ sv' = IF issue THEN [sv EXCEPT ![sr] = @ \cup {new}] ELSE sv
     /\ cc' = IF issue /\ tx = "read" THEN [cc EXCEPT ![cl][nm] = new] ELSE cc
     /\ hist' = Append(hist, [a |-> "conn", cl |-> cl, sr |-> sr, nm |-> nm, su |-> su, cm |-> cm, sm |-> sm, fl |-> fl,
                              ck |-> ck, tx |-> tx, ok |-> r.ok, psk |-> r.psk, suite |-> r.suite, offered |-> r.offered, proto |-> r.proto,
                              cp |-> Protos.client[cl], sp |-> Protos.server[sr],
                              t |-> cc[cl][nm], new |-> IF issue THEN new ELSE 0])

Forget(sr) == /\ sv[sr] # {} /\ sv' = [sv EXCEPT ![sr] = {}]
              /\ hist' = Append(hist, [a |-> "forget", sr |-> sr]) /\ UNCHANGED <<cc, tk>>

Next == /\ Len(hist) < MaxConns
        /\ \/ \E cl \in Clients, sr \in Servers, nm \in Names, su \in SuiteLists, cm \in Modes, sm \in Modes,
                 fl \in Flaws, ck \in Cookies, tx \in Tix : Connect(cl, sr, nm, su, cm, sm, fl, ck, tx)
           \/ \E sr \in Servers : Forget(sr)
Spec == Init /\ [][Next]_vars

\* a PSK is used only with the server that issued it, by a holder, under its suite
OnlyHolders == \A i \in DOMAIN hist : (hist[i].a = "conn" /\ hist[i].psk) =>
                  /\ hist[i].ok /\ hist[i].t # 0 /\ tk[hist[i].t].server = hist[i].sr
                  /\ tk[hist[i].t].suite = hist[i].suite
\* a ticket that was received is good for another connection with the same parameters
Resumable == \A i \in DOMAIN hist : \A j \in DOMAIN hist :
   (/\ i < j /\ hist[i].a = "conn" /\ hist[j].a = "conn" /\ hist[i].new # 0 /\ hist[j].t = hist[i].new
    /\ hist[i].tx = "read" /\ hist[j].sr = hist[i].sr /\ hist[j].su = hist[i].su /\ hist[j].fl = "none"
    /\ Common(hist[j].cm, hist[j].sm)
    /\ \A k \in i..j : ~(hist[k].a = "forget" /\ hist[k].sr = hist[j].sr)) => hist[j].psk
\* a flawed proof never completes as a resumption
NoFlaw == \A i \in DOMAIN hist : (hist[i].a = "conn" /\ hist[i].fl \notin {"none", "aged"}) => ~hist[i].psk
Emit == Len(hist) = MaxConns => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
