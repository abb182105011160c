------------------------------- MODULE MCReads -------------------------------
EXTENDS Reads
AllModes == {[role |-> r, dtls |-> b] : r \in {"client", "server"}, b \in BOOLEAN}
=============================================================================
