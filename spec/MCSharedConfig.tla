--------------------------- MODULE MCSharedConfig ---------------------------
EXTENDS SharedConfig
SuL == {<<>>, <<"a">>, <<"b">>, <<"b", "a">>}
GrL == {<<>>, <<"x25519">>, <<"p256">>, <<"x25519", "p256">>}
SgL == {<<>>, <<"ecdsa256">>, <<"pss256">>, <<"ecdsa256", "pss256">>}
PrL == {<<>>, <<"h1">>, <<"h2", "h1">>}
CProfAll == [nm : {"n1", "n2"}, su : SuL, gr : GrL, sg : SgL, pr : PrL, au : BOOLEAN, ea : BOOLEAN, ks : BOOLEAN]
SProfAll == [cert : {"p256", "rsa"}, su : SuL, gr : GrL, sg : SgL, pr : PrL, ck : BOOLEAN, tx : BOOLEAN, au : BOOLEAN, ea : BOOLEAN, ks : BOOLEAN, tl : {0, 7}]
CSetAll == [f : {"su"}, v : SuL] \cup [f : {"gr"}, v : GrL] \cup [f : {"sg"}, v : SgL] \cup [f : {"pr"}, v : PrL] \cup [f : {"nm"}, v : {"n1", "n2"}]
           \cup [f : {"au", "ea"}, v : BOOLEAN]
SSetAll == [f : {"su"}, v : SuL] \cup [f : {"gr"}, v : GrL] \cup [f : {"sg"}, v : SgL] \cup [f : {"pr"}, v : PrL]
           \cup [f : {"ck", "tx", "au", "ea"}, v : BOOLEAN] \cup [f : {"tl"}, v : {5, 20}]
FaultsAll == {"none", "flipS", "flipC", "alertS", "eofS"}
\* small universe, explored exhaustively
C0 == [nm |-> "n1", su |-> <<>>, gr |-> <<>>, sg |-> <<>>, pr |-> <<>>, au |-> FALSE, ea |-> FALSE, ks |-> TRUE]
S0 == [cert |-> "p256", su |-> <<>>, gr |-> <<>>, sg |-> <<>>, pr |-> <<>>, ck |-> FALSE, tx |-> TRUE, au |-> FALSE, ea |-> FALSE, ks |-> FALSE, tl |-> 0]
CProfS == {C0, [C0 EXCEPT !.ks = FALSE, !.su = <<"b", "a">>]}
SProfS == {S0, [S0 EXCEPT !.ck = TRUE, !.su = <<"b">>]}
CSetS == {[f |-> "su", v |-> <<"a">>]}
SSetS == {[f |-> "ck", v |-> FALSE]}
\* random histories: connections are pursued more often than objects are cloned
RE(S) == RandomElement(S)
SimInit == obj = <<>> /\ cc = <<[n \in Names |-> 0]>> /\ sc = <<{}, {}>> /\ tk = <<>> /\ con = <<>> /\ hist = <<>>
\* (the first step, not the initial state, so that every trace draws its own)
New == \E a \in {RE(CProfAll)}, b \in {RE(SProfAll)}, d \in {RE(SProfAll)}, e \in {RE({TRUE, FALSE})} :
   \* mostly compatible Configs
   LET x == IF e THEN [a EXCEPT !.gr = <<>>, !.sg = <<>>] ELSE a
       y == IF e THEN [b EXCEPT !.tx = TRUE] ELSE b IN
   /\ obj' = <<[side |-> "c", p |-> x, k |-> IF x.ks THEN 1 ELSE 0, up |-> FALSE], [side |-> "s", p |-> y, k |-> IF y.ks THEN 1 ELSE 0, up |-> FALSE],
              [side |-> "s", p |-> d, k |-> IF d.ks THEN 2 ELSE 0, up |-> FALSE]>>
   /\ hist' = <<[a |-> "new", objs |-> obj']>>
   /\ UNCHANGED <<cc, sc, tk, con>>
Live == {i \in DOMAIN con : con[i].ph \notin {"done", "failed"}}
SimNext ==
  /\ Len(hist) < MaxLen
  /\ IF hist = <<>> THEN New ELSE \E d \in {RE(1..20)}, c \in {RE(Objs("c"))}, s \in {RE(Objs("s"))}, f \in {RE(Faults)}, g \in {RE(1..4)}, o \in {RE(DOMAIN obj)}, z \in {RE(1..100)},
        xc \in {RE(CSetAll)}, xs \in {RE(SSetAll)} :
       LET x == IF obj[o].side = "c" THEN xc ELSE xs IN
       IF d = 1 /\ Len(obj) < MaxObjs THEN Clone(o)
       ELSE IF d = 2 /\ ENABLED Set(o, x) THEN Set(o, x)
       ELSE IF Len(con) < MaxConns /\ (Live = {} \/ (d < 7 /\ Cardinality(Live) < 3)) THEN Open(c, s, IF g = 1 THEN f ELSE "none")
       ELSE IF Live = {} THEN FALSE ELSE LET l == SetToSeq(Live) IN Step(l[1 + (z % Len(l))])
SimSpec == SimInit /\ [][SimNext]_vars
EmitSim == (Len(hist) = MaxLen \/ (Len(con) = MaxConns /\ Live = {})) => PrintT("CASE " \o ToJson([hist |-> hist, fin |-> [o \in DOMAIN obj |-> obj[o].p],
            par |-> [i \in DOMAIN con |-> [c |-> con[i].c, s |-> con[i].s, all |-> SetToSeq(Allowed(con[i]))]]]))
=============================================================================
