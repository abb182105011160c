------------------------------ MODULE MCAlerts ------------------------------
EXTENDS Alerts
I(k) == [k |-> k, l |-> 0, d |-> 0]
A(l, d) == [k |-> "alert", l |-> l, d |-> d]
P(l, d) == [k |-> "plain", l |-> l, d |-> d]
TLSModes == {[role |-> r, dtls |-> FALSE] : r \in {"client", "server"}}
AllModes == {[role |-> r, dtls |-> b] : r \in {"client", "server"}, b \in BOOLEAN}
QuickItems == {I("data"), A(1, 0), A(2, 0), A(2, 40), A(1, 90), A(1, 100), A(3, 40), I("short"), I("long"), I("empty"),
               P(1, 0), P(2, 40), I("ku1"), I("nst"), I("bad"), I("badrec")}
DeepItems == QuickItems \cup {A(2, 90), A(1, 10), A(0, 0), A(255, 255), I("ku0"), I("ack")}
SweepItems == {I("data")} \cup {A(l, d) : l \in {0, 1, 2, 3, 255}, d \in 0..255}
AllOps == {"Rh", "W", "K"}
NoOps == {}
Free == <<>>
SweepShape == <<"data", "alert", "data", "Ra", "Ra">>
=============================================================================
