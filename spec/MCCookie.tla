------------------------------ MODULE MCCookie ------------------------------
EXTENDS Cookie
H(su, p) == [su |-> su, psk |-> p]
HellosS == {H(<<"a">>, FALSE), H(<<"b">>, FALSE)}
HellosAll == {H(<<"a">>, FALSE), H(<<"b">>, FALSE), H(<<"b", "a">>, FALSE), H(<<"b", "a">>, TRUE), H(<<"a">>, TRUE)}
ProtsAll == {(1 :> 1 @@ 2 :> 1), (1 :> 1 @@ 2 :> 2)}
HandlersAll == {"none", "addr", "any", "deny", "skip", "err"}
DamagesAll == {"none", "intact", "flip0", "fliplast", "flip", "trunc", "ext", "drop", "splice", "forged", "empty"}
\* random histories
RE(S) == RandomElement(S)
SimInit == prot = (1 :> 1 @@ 2 :> 1) /\ hdl = [i \in Insts |-> "none"] /\ issued = <<>> /\ wait = {} /\ hist = <<>>
Setup == /\ \E p \in {RE(ProtsAll)}, h \in {RE({"none", "addr", "any"})}, g \in {RE(HandlersAll)} : prot' = p /\ hdl' = (1 :> h @@ 2 :> g)
         /\ hist' = <<[d |-> "setup", out |-> ""]>> /\ UNCHANGED <<issued, wait>>
SimNext == IF hist = <<>> THEN Setup ELSE
  /\ Len(hist) < MaxSends
  /\ hist[Len(hist)].out # "refuse"
  /\ \E i \in {RE(Insts)}, q \in {RE(Peers)}, h \in {RE(Hellos)}, h2 \in {RE(Hellos)}, fresh \in {RE(BOOLEAN)}, k \in {RE(0..Len(issued))}, w \in {RE(1..10)}, d \in {RE(Damages)}, z \in {RE(1..3)} :
       IF issued = <<>> \/ w < 4 THEN Send(i, q, h, fresh \/ <<i, q>> \notin wait, 0, IF z = 1 /\ d \in {"forged", "empty"} THEN d ELSE "none")
       ELSE LET kk == IF k = 0 THEN Len(issued) ELSE k
                c == issued[kk]
                \* mostly the client that was given the cookie
                ii == IF z > 1 THEN c.inst ELSE i  qq == IF z > 1 THEN c.peer ELSE q
                hh == IF SuiteOf(h) = c.suite THEN h ELSE IF z > 1 THEN H(<<c.suite>>, FALSE) ELSE h
                dd == IF w < 8 \/ d \in {"none", "empty", "forged"} THEN "intact" ELSE d
            IN Send(ii, qq, hh, fresh \/ <<ii, qq>> \notin wait, kk, dd)
SimSpec == SimInit /\ [][SimNext]_vars
NoSetup == TRUE
=============================================================================
