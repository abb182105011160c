------------------------------ MODULE MCStream ------------------------------
EXTENDS Stream
AllAtt == {"alter", "drop", "dup", "swap", "forge", "trunc", "old", "refl"}
NoAtt == {}
S1 == {"s"}
S3 == {"z", "s", "L"}
=============================================================================
