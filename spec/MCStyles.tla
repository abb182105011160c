------------------------------ MODULE MCStyles ------------------------------
EXTENDS Styles
=============================================================================
