----------------------------- MODULE MCSession -----------------------------
EXTENDS Session
S12 == {<<"a", "b">>, <<"b", "a">>, <<"b">>}
SQ == {<<"a", "b">>, <<"b">>}
ModesAll == {{"ke"}, {"dhe"}, {"ke", "dhe"}}
ModesQ == {{"ke"}, {"dhe"}}
FlawsAll == {"none", "key", "age", "ageold", "aged", "label", "idswap", "unk"}
FlawsQ == {"none", "key"}
PAll == [client |-> <<<<"h1", "h2">>, <<"h3">>>>, server |-> <<<<"h2", "h1">>, <<>>>>]
PNone == [client |-> <<<<>>, <<>>>>, server |-> <<<<>>, <<>>>>]
TixAll == {"none", "unread", "read"}
\* one random history per trace (simulation): RandomElement is evaluated once per \E
Mostly(S, x) == IF RandomElement(1..3) > 1 THEN x ELSE RandomElement(S)
SimNext ==
  /\ Len(hist) < MaxConns
  /\ \E d \in {RandomElement(1..16)}, cl \in {RandomElement(Clients)}, sr \in {Mostly(Servers, 1)}, nm \in {Mostly(Names, "n1")},
        su \in {IF RandomElement(1..2) = 1 THEN <<"a", "b">> ELSE RandomElement(SuiteLists)}, cm \in {Mostly(Modes, {"ke", "dhe"})}, sm \in {Mostly(Modes, {"ke", "dhe"})},
        f \in {RandomElement(Flaws)}, w \in {RandomElement(1..3)}, ck \in {RandomElement(Cookies)}, tx \in {Mostly(Tix, "read")} :
       IF d = 1 /\ sv[sr] # {} THEN Forget(sr)
       ELSE LET r == Result(cl, sr, nm, su, cm, sm, f)
                fl == IF w = 1 /\ f # "none" /\ r.offered /\ (f = "idswap" => ~r.ok) THEN f ELSE "none"
            IN Connect(cl, sr, nm, su, cm, sm, fl, ck, tx)
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
