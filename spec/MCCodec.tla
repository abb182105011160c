------------------------------- MODULE MCCodec -------------------------------
EXTENDS Codec
Atoms == <<U(1), U(2), U(4), U(8), Arr(2, U(1)), St(<<U(1), U(2)>>), Even, Cust>>
Nested == <<St(<<VI(8)>>), St(<<Opt(U(2))>>), St(<<Vec(1, 0, 0, U(1))>>), St(<<Vec(9, 0, 0, U(1)), U(1)>>), Ptr(U(2)), St(<<Opt(St(<<U(1), Even>>))>>)>>
Map1(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
One(f) == St(<<f>>)
Between(f) == St(<<U(1), f, U(2)>>)
Ints == <<U(1), U(2), U(4), U(8), VI(1), VI(2), VI(4), VI(8)>>
Headers == <<Vec(1, 0, 0, U(1)), Vec(2, 0, 0, U(1)), Vec(3, 0, 0, U(1)), Vec(4, 0, 0, U(1)), Vec(5, 0, 0, U(1)), Vec(8, 0, 0, U(1)), Vec(9, 0, 0, U(1))>>
Bounds == <<Vec(1, 0, 3, U(1)), Vec(1, 2, 3, U(1)), Vec(1, 2, 0, U(1)), Vec(1, 1, 255, U(1)), Vec(2, 2, 4, U(2)), Vec(2, 3, 3, U(2)), Vec(9, 1, 2, U(1)), Vec(2, 32, 255, U(1)),
            Vec(1, 3, 7, Even), Vec(2, 4, 0, St(<<U(1), U(2)>>)), Vec(1, 0, 254, U(2)), Vec(9, 60, 70, U(1))>>
Vectors == Map1(LAMBDA e : Vec(1, 0, 0, e), SubSeq(Atoms, 2, 8) \o Nested) \o Map1(LAMBDA e : Vec(2, 0, 0, e), Nested) \o Map1(LAMBDA e : Vec(9, 0, 0, e), Nested)
VecVec == <<Vec(1, 0, 0, Vec(1, 0, 0, U(1))), Vec(2, 0, 0, Vec(2, 0, 0, U(2))), Vec(9, 0, 0, Vec(9, 0, 0, U(1))), Vec(1, 2, 0, Vec(1, 2, 0, U(1)))>>
Rests == <<Vec(0, 0, 0, U(1)), Vec(0, 0, 0, U(2)), Vec(0, 2, 4, U(1)), Vec(0, 0, 0, St(<<Vec(1, 0, 0, U(1))>>)), Map(0, 0, 0, U(1), U(2))>>
Arrays == <<Arr(0, U(1)), Arr(1, U(2)), Arr(3, U(1)), Arr(2, St(<<U(1), VI(2)>>)), Arr(2, Even), Arr(2, Cust), Arr(2, Arr(2, U(1))), Arr(2, Ptr(U(1)))>>
Maps == <<Map(1, 0, 0, U(1), U(1)), Map(2, 0, 0, U(2), St(<<U(1), U(2)>>)), Map(9, 0, 0, U(1), St(<<Vec(1, 0, 0, U(1))>>)), Map(1, 2, 6, U(1), U(2)), Map(3, 0, 0, Arr(2, U(1)), Cust),
          Map(2, 0, 0, St(<<U(1), U(1)>>), U(1)), Map(1, 0, 0, U(8), Even), Map(2, 0, 0, Even, St(<<Opt(U(1))>>)), Map(1, 0, 0, U(1), Arr(0, U(1)))>>
Pointers == Map1(LAMBDA e : Opt(e), Atoms \o SubSeq(Nested, 1, 4)) \o Map1(LAMBDA e : Ptr(e), Atoms \o SubSeq(Nested, 1, 4)) \o <<Ptr(Ptr(U(1)))>>
Others == <<Even, Cust, Omit(U(2)), Omit(Vec(-1, 0, 0, U(1))), Omit(Ptr(U(1))), St(<<U(1), VI(4)>>)>>
Missing == <<Vec(-1, 0, 0, U(1)), Map(-1, 0, 0, U(1), U(1)), Vec(-1, 1, 3, U(1))>>
Bads == <<Bad(1, U(1)), Bad(2, U(1)), Bad(3, U(1)), Bad(4, U(1)), Bad(5, U(1)), Bad(6, U(1)), Bad(7, U(1)), Bad(8, U(1)), Bad(9, U(1)), Bad(10, U(1)), Bad(11, U(1))>>
\* on its own, not as a field
Alone == Atoms \o <<Arr(3, U(2)), Vec(-1, 0, 0, U(1)), Map(-1, 0, 0, U(1), U(1)), Ptr(U(2)), Ptr(St(<<U(1)>>))>>
Deep == << St(<<U(2), Arr(3, U(1)), Vec(1, 0, 32, U(1)), Vec(2, 2, 0, U(2)), Vec(1, 1, 0, U(1)), Vec(2, 0, 0, St(<<U(2), Vec(2, 0, 0, U(1))>>))>>),
           St(<<Vec(2, 0, 0, St(<<Vec(1, 0, 0, U(1)), Opt(U(2)), VI(4)>>)), U(1)>>),
           St(<<Opt(St(<<Vec(1, 1, 3, Even), Map(1, 0, 0, U(1), St(<<VI(2)>>))>>)), Cust>>),
           St(<<Omit(U(4)), U(1), Omit(Vec(1, 0, 0, U(1))), VI(8), Vec(0, 0, 0, U(1))>>),
           St(<<Vec(3, 0, 0, St(<<Vec(3, 1, 0, U(1)), Vec(2, 0, 0, St(<<U(2), Vec(2, 0, 0, U(1))>>))>>)), Vec(9, 0, 0, Cust)>>),
           St(<<>>), St(<<St(<<>>), U(1)>>), St(<<Arr(2, St(<<Vec(1, 0, 0, U(2))>>))>>), St(<<Vec(1, 0, 0, Arr(2, St(<<Opt(U(1))>>)))>>) >>
Ext == St(<<U(2), Vec(2, 0, 0, U(1))>>)
Exts == Vec(2, 0, 0, Ext)
Mint == << Named(1, St(<<U(2), Vec(2, 0, 0, U(1))>>)),                                   \* CertificateVerify
           Named(2, St(<<U(2), Arr(32, U(1)), Vec(1, 0, 32, U(1)), U(2), U(1), Exts>>)),  \* ServerHello
           Named(3, St(<<Exts>>)), Named(4, St(<<Vec(1, 0, 0, U(1)), Exts>>)),            \* EncryptedExtensions, CertificateRequest
           Named(5, St(<<U(4), U(4), Vec(1, 0, 0, U(1)), Vec(2, 1, 0, U(1)), Exts>>)),    \* NewSessionTicket
           Named(6, St(<<U(1)>>)),                                                        \* KeyUpdate
           Named(7, St(<<Vec(2, 2, 0, U(2))>>)), Named(8, St(<<Vec(2, 2, 0, U(2))>>)), Named(9, St(<<Vec(1, 1, 0, U(1))>>)),
           Named(10, St(<<U(4)>>)), Named(11, St(<<Vec(2, 1, 0, U(1))>>)), Named(12, Ext), Named(13, Exts),
           Named(20, St(<<Vec(2, 0, 0, St(<<U(2), Vec(2, 1, 0, U(1))>>))>>)), Named(21, St(<<U(2)>>)), Named(22, St(<<U(2), Vec(2, 1, 0, U(1))>>)),
           Named(23, St(<<Vec(2, 7, 0, St(<<Vec(2, 1, 0, U(1)), U(4)>>)), Vec(2, 33, 0, St(<<Vec(1, 32, 0, U(1))>>))>>)), Named(24, St(<<U(2)>>)),
           Named(25, St(<<Vec(1, 2, 254, U(2))>>)), Named(26, St(<<U(2)>>)),
           Named(27, St(<<Vec(2, 1, 0, St(<<U(1), Vec(2, 1, 0, U(1))>>))>>)),
           Named(28, St(<<U(2), Arr(32, U(1)), Vec(1, 0, 32, U(1)), Vec(2, 2, 0, U(2)), Vec(1, 1, 0, U(1)), Exts>>)),
           Named(29, St(<<U(2), Arr(32, U(1)), Vec(1, 0, 32, U(1)), U(1), Vec(2, 2, 0, U(2)), Vec(1, 1, 0, U(1)), Exts>>)),
           Named(30, St(<<Vec(2, 2, 0, St(<<Vec(1, 1, 0, U(1))>>))>>)) >>
Fields == Ints \o Headers \o Bounds \o Vectors \o VecVec \o Arrays \o Maps \o Pointers \o Others \o Missing \o Bads
Catalogue == Alone \o Map1(One, Fields \o Rests) \o Map1(Between, Fields) \o Deep \o Mint
\* one element that is the whole body
Blob(h, lo, hi) == Vec(h, lo, hi, T("blob", 0, -1, 0, 0, <<>>))
MCBigs == {<<Blob(h, 0, 0), n>> : h \in {1, 2, 3, 4, 8, 9}, n \in {1, 63, 64, 255, 256, 16383, 16384, 65535, 65536, 70000, 16777215, 16777216}}
          \cup {<<Blob(2, 0, 65534), n>> : n \in {65534, 65535}} \cup {<<Blob(3, 65536, 0), n>> : n \in {65535, 65536}}
          \cup {<<Blob(9, 0, 100000), n>> : n \in {99999, 100000, 100001}} \cup {<<Blob(0, 300, 400), n>> : n \in {299, 300, 400, 401}}
MCRawBytes == {0, 1, 3, 64, 192, 255}
=============================================================================
