------------------------------ MODULE MCConcur ------------------------------
EXTENDS Concur
AllOps == {"W", "w", "K0", "K1", "R"}
=============================================================================
