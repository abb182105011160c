---------------------------- MODULE MCNegotiate ----------------------------
EXTENDS Negotiate

CertOf(ns, k) == [names |-> ns, key |-> k]
Cli0 == [suites |-> <<"A", "B">>, groups |-> <<"x25519">>, alpn |-> <<>>, schemes |-> <<"ecdsa256", "pss256">>, sni |-> "n1",
         psk |-> "", next |-> "", res |-> TRUE, modes |-> <<"ke", "dhe">>, certs |-> <<>>]
Srv0 == [suites |-> <<"A", "B">>, groups |-> <<"x25519", "p256">>, alpn |-> <<>>, certs |-> <<CertOf(<<"n1">>, "p256")>>,
         knows |-> TRUE, modes |-> <<"dhe", "ke">>, auth |-> FALSE, schemes |-> <<"ecdsa256", "pss256">>]
Case(a, b) == [cli |-> a, srv |-> b]

SuiteL == {<<"A">>, <<"B">>, <<"A", "B">>, <<"B", "A">>}
\* suites, PSKs, modes, groups
GC == {<<"x25519">>, <<"p256">>, <<"p256", "x25519">>}
GS == {<<"x25519">>, <<"x25519", "p256">>}
ML == {<<"dhe">>, <<"ke">>, <<"ke", "dhe">>}
PskQ == {<<"", TRUE>>, <<"A", TRUE>>, <<"B", TRUE>>, <<"B", FALSE>>}
BlockPSK(SC) ==
  \E sc \in SC, ss \in SuiteL, gc \in GC, gs \in GS, p \in PskQ, mc \in ML, ms \in ML, k \in BOOLEAN :
     /\ p[1] = "" => sc \in SuiteL /\ mc = <<"ke", "dhe">> /\ ms = <<"dhe">> /\ k
     /\ Start(Case([Cli0 EXCEPT !.suites = sc, !.groups = gc, !.psk = p[1], !.res = p[2], !.modes = mc],
                   [Srv0 EXCEPT !.suites = ss, !.groups = gs, !.knows = k, !.modes = ms]))

\* groups
GAll == {"x25519", "p256", "p384", "p521", "ffdhe2048"}
Pairs(S) == {<<a>> : a \in S} \cup {q \in {<<a, b>> : a \in S, b \in S} : q[1] # q[2]}
BlockGroup == \E gc \in Pairs(GAll), gs \in Pairs(GAll) : Start(Case([Cli0 EXCEPT !.groups = gc], [Srv0 EXCEPT !.groups = gs]))

\* application protocols
AL == {<<>>} \cup Pairs({"h2", "h1", "x"}) \cup {<<"x", "h1", "h2">>}
AP == {<<"", "", TRUE>>, <<"A", "h2", TRUE>>, <<"A", "", TRUE>>, <<"A", "h2", FALSE>>, <<"A", "", FALSE>>}
BlockALPN ==
  \E a \in AL, b \in AL, p \in AP, k \in BOOLEAN :
     /\ p[1] = "" => k
     /\ Start(Case([Cli0 EXCEPT !.alpn = a, !.psk = p[1], !.next = p[2], !.res = p[3]], [Srv0 EXCEPT !.alpn = b, !.knows = k]))

\* certificates
CertsQ == {CertOf(n, k) : n \in {<<"n1">>, <<"n2">>}, k \in {"rsa", "p256", "p384"}} \cup {CertOf(<<"n2", "n1">>, "p256"), CertOf(<<"n1">>, "p521")}
SchemesQ == {<<"ecdsa256">>, <<"pss256">>, <<"ecdsa384">>, <<"ecdsa521">>, <<"pss512", "ecdsa384">>, <<"ecdsa384", "ecdsa256">>,
             <<"ed25519", "pss384">>, <<"pss384", "pss256", "ecdsa256">>, <<"ecdsa256", "pss256", "ecdsa521", "ecdsa384">>, <<"ed25519">>}
Lists1 == {<<>>} \cup {<<a>> : a \in CertsQ}
Lists2 == {<<a, b>> : a \in CertsQ, b \in CertsQ}
BlockCert(L, S) ==
  \E l \in L, s \in S, n \in {"n1", "n2", "n3"} : Start(Case([Cli0 EXCEPT !.schemes = s, !.sni = n], [Srv0 EXCEPT !.certs = l]))
BlockClientAuth(L) ==
  \E l \in L, s \in SchemesQ : Start(Case([Cli0 EXCEPT !.certs = l], [Srv0 EXCEPT !.auth = TRUE, !.schemes = s]))
BlockAuthPSK ==
  \E a \in BOOLEAN, k \in BOOLEAN :
    Start(Case([Cli0 EXCEPT !.certs = <<CertOf(<<"n1">>, "p256")>>, !.psk = "A"], [Srv0 EXCEPT !.auth = a, !.knows = k]))

QuickInit ==
  \/ BlockPSK({<<"A">>, <<"A", "B">>})
  \/ BlockGroup
  \/ BlockALPN
  \/ BlockCert(Lists1, SchemesQ)
  \/ BlockCert(Lists2, {<<"ecdsa384", "ecdsa256">>, <<"ed25519", "pss384">>, <<"ecdsa256", "pss256", "ecdsa521", "ecdsa384">>})
  \/ BlockClientAuth(Lists1 \cup Lists2)
  \/ BlockAuthPSK
QuickSpec == QuickInit /\ Step

SAll == {"ecdsa256", "ecdsa384", "ecdsa521", "pss256", "pss384", "pss512", "ed25519"}
ThoroughInit ==
  \/ BlockPSK(SuiteL)
  \/ BlockGroup
  \/ BlockALPN
  \/ BlockCert(Lists1, Pairs(SAll))
  \/ BlockCert(Lists2, Pairs({"ecdsa256", "ecdsa384", "pss256"}) \cup SchemesQ)
  \/ BlockClientAuth(Lists1 \cup Lists2)
  \/ BlockAuthPSK
ThoroughSpec == ThoroughInit /\ Step
=============================================================================
