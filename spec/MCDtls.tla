------------------------------- MODULE MCDtls -------------------------------
EXTENDS Dtls
RE(S) == RandomElement(S)
ModesAll == {"psk", "cert", "bigch", "cauth", "cookie", "bigcookie"}
\* for exhaustive checking, histories only matter by their counts
Counts == [x \in {"drop", "dup", "tick", "data"} |-> Count(x)]
\* time matters only relative to the timers
Ago(now, x, on) == IF on THEN (IF now - x > 4 THEN 4 ELSE now - x) ELSE 9
RelE(st, w) == [st[w] EXCEPT !.rt = Ago(st.now, @, st[w].rts), !.ak = Ago(st.now, @, st[w].aks)]
Rel(st) == [st EXCEPT !.tx = 0, !.now = 0, !.c = RelE(st, "c"), !.s = RelE(st, "s")]
View == <<mode, Rel(sys), Counts>>
\* random histories: bursts of faults, mostly in order delivery
SimInit == mode = "psk" /\ sys = Blank /\ hist = <<>>
Setup == \E m \in {RE(ModesAll)} : mode' = m /\ sys' = Start(m) /\ hist' = <<Entry("start", "-", 0, 0, sys')>>
Pick(q) == RE(1..(IF Len(q) = 0 THEN 1 ELSE Len(q)))
SimStep ==
  /\ Len(hist) < MaxSteps /\ UNCHANGED mode
  /\ \E z \in {RE(1..100)}, w0 \in {RE({"c", "s"})} :
     LET w == IF sys.net[w0] = <<>> THEN Other(w0) ELSE w0 IN
     IF sys.net[w] = <<>> THEN (IF Both /\ z < 50 THEN Data(w0) ELSE Tick)
     ELSE \E i \in {IF z % 3 = 0 THEN 1 ELSE Pick(sys.net[w])} :
          CASE z <= 25 /\ Handshaking(sys.net[w][i]) /\ Count("drop") < MaxLoss -> Drop(w, i)
            [] z > 25 /\ z <= 40 /\ Handshaking(sys.net[w][i]) /\ Count("dup") < MaxDup -> Dup(w, i)
            [] z > 40 /\ z <= 52 /\ Count("tick") < MaxTicks -> Tick
            [] z > 52 /\ z <= 58 /\ Both -> Data(w)
            [] OTHER -> Deliver(w, i)
SimNext == IF hist = <<>> THEN Setup ELSE SimStep
SimSpec == SimInit /\ [][SimNext]_vars
SimCompletes == hist # <<>> => Completes
=============================================================================
