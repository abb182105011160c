--------------------------- MODULE MCCookieHonest ---------------------------
EXTENDS CookieHonest
SuitesAll == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>}
=============================================================================
