------------------------------ MODULE MCEarly -------------------------------
EXTENDS Early
=============================================================================
