-------------------------------- MODULE Codec --------------------------------
(* The TLS presentation language as package syntax implements it: for a type,   *)
(* what every value is encoded to and what every byte string is decoded to.     *)
(*                                                                              *)
(* A type is a record [k, n, h, lo, hi, e]:                                     *)
(*   u     unsigned integer of n bytes        vi   the same, tagged varint      *)
(*   arr   n elements of type e[1]            vec  vector of e[1] whose length  *)
(*   map   from e[1] to e[2]                       header is h bytes long, or a *)
(*   opt   optional pointer to e[1]                varint (9) or absent (0), or *)
(*   ptr   pointer to e[1]                         not declared (-1); its body  *)
(*   st    struct of the types e                   is lo..hi bytes (hi = 0: any)*)
(*   omit  a field the layout leaves out      even  a u8 that has to be even    *)
(*   cust  a u8 with its own encoding, C0 then the byte                         *)
(*   bad   a field whose tag (number n) is invalid                              *)
(*   named an encoding of mint (number n) with layout e[1]                      *)
(* A value of u, vi, even or cust is the sequence of its bytes, of opt and ptr  *)
(* <<>> or <<v>>, of the others the sequence of what is inside (a map: pairs).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Types,      \* the catalogue, a sequence of types
          Bigs,       \* long vectors: pairs of type and length
          RawLen,     \* raw inputs up to this length
          RawBytes,   \* over this alphabet
          MutPos      \* positions of an encoding that are changed
VARIABLES ti, cas
vars == <<ti, cas>>

T(k, n, h, lo, hi, e) == [k |-> k, n |-> n, h |-> h, lo |-> lo, hi |-> hi, e |-> e]
U(n) == T("u", n, -1, 0, 0, <<>>)
VI(n) == T("vi", n, -1, 0, 0, <<>>)
Arr(n, e) == T("arr", n, -1, 0, 0, <<e>>)
Vec(h, lo, hi, e) == T("vec", 0, h, lo, hi, <<e>>)
Map(h, lo, hi, k, v) == T("map", 0, h, lo, hi, <<k, v>>)
Opt(e) == T("opt", 0, -1, 0, 0, <<e>>)
Ptr(e) == T("ptr", 0, -1, 0, 0, <<e>>)
St(e) == T("st", 0, -1, 0, 0, e)
Omit(e) == T("omit", 0, -1, 0, 0, <<e>>)
Even == T("even", 1, -1, 0, 0, <<>>)
Cust == T("cust", 1, -1, 0, 0, <<>>)
Bad(n, e) == T("bad", n, -1, 0, 0, <<e>>)
Named(n, e) == T("named", n, -1, 0, 0, <<e>>)

Fail == [ok |-> FALSE, b |-> <<>>]
OK(b) == [ok |-> TRUE, b |-> b]
Huge == -1

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Zeros(n) == [i \in 1..n |-> 0]
\* n as size bytes
RECURSIVE Big(_, _)
Big(n, size) == IF size = 0 THEN <<>> ELSE Append(Big(n \div 256, size - 1), n % 256)

\* a 62-bit integer given as bytes, in the shortest of the four varint forms
VarEnc(b) ==
  LET p == Zeros(8 - Len(b)) \o b IN
  IF p[1] >= 64 THEN Fail
  ELSE IF \E i \in 1..4 : p[i] # 0 THEN OK([p EXCEPT ![1] = @ + 192])
  ELSE IF p[5] >= 64 THEN OK([p EXCEPT ![1] = @ + 192])
  ELSE IF p[5] # 0 \/ p[6] # 0 \/ p[7] >= 64 THEN OK([SubSeq(p, 5, 8) EXCEPT ![1] = @ + 128])
  ELSE IF p[7] # 0 \/ p[8] >= 64 THEN OK([SubSeq(p, 7, 8) EXCEPT ![1] = @ + 64])
  ELSE OK(SubSeq(p, 8, 8))
\* the bytes of the varint that b starts with (eight, padded) and its length, 0 when b is too short
VarDec(b) ==
  IF b = <<>> THEN [n |-> 0, b |-> <<>>]
  ELSE LET l == Pow(2, b[1] \div 64) IN
       IF Len(b) < l THEN [n |-> 0, b |-> <<>>]
       ELSE [n |-> l, b |-> Zeros(8 - l) \o [SubSeq(b, 1, l) EXCEPT ![1] = @ % 64]]
\* bytes as a number, or Huge when that is out of any length's reach
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0
          ELSE IF Len(b) > 3 THEN (IF b[1] = 0 THEN Num(Tail(b)) ELSE Huge)
          ELSE b[1] * Pow(256, Len(b) - 1) + Num(Tail(b))

\* the header of a body of n bytes
LenEnc(t, n) ==
  IF (t.hi > 0 /\ n > t.hi) \/ n < t.lo THEN Fail
  ELSE CASE t.h = 0 -> OK(<<>>)
         [] t.h = 9 -> VarEnc(Big(n, 4))
         [] t.h \in 1..8 -> IF t.h <= 3 /\ n >= Pow(256, t.h) THEN Fail ELSE OK(Big(n, t.h))
         [] OTHER -> Fail
\* what a header at the start of b says: its size and the length of the body, all within b
LenDec(t, b) ==
  LET no == [ok |-> FALSE, n |-> 0, len |-> 0]
      chk(n, len) == IF len = Huge \/ (t.hi > 0 /\ len > t.hi) \/ len < t.lo \/ n + len > Len(b)
                     THEN no ELSE [ok |-> TRUE, n |-> n, len |-> len] IN
  CASE t.h = 0 -> chk(0, Len(b))
    [] t.h = 9 -> LET d == VarDec(b) IN IF d.n = 0 THEN no ELSE chk(d.n, Num(d.b))
    [] t.h \in 1..8 -> IF Len(b) < t.h THEN no ELSE chk(t.h, Num(SubSeq(b, 1, t.h)))
    [] OTHER -> no

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
\* entries sorted by encoded key; a repeated key keeps its last value
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>>
                ELSE IF s[1].key = x.key THEN <<x>> \o Tail(s)
                ELSE IF Less(x.key, s[1].key) THEN <<x>> \o s
                ELSE <<s[1]>> \o Insert(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

Cat2(x, y) == IF x.ok /\ y.ok THEN OK(x.b \o y.b) ELSE Fail
\* the options of a field reach the vectors directly inside its elements
Inner(t) == IF t.k = "vec" /\ t.e[1].k = "vec" THEN [t.e[1] EXCEPT !.h = t.h, !.lo = t.lo, !.hi = t.hi] ELSE t.e[1]

\* groups and the sizes of their shares (what the selectors of key_share demand)
ShareSize(g) == CASE g = <<0, 23>> -> 65 [] g = <<0, 24>> -> 97 [] g = <<0, 25>> -> 133 [] g = <<0, 29>> -> 32 [] g = <<1, 0>> -> 256 [] g = <<1, 1>> -> 384 [] g = <<1, 2>> -> 512 [] g = <<1, 3>> -> 768 [] g = <<1, 4>> -> 1024 [] OTHER -> 0
\* what mint's own encodings demand beyond their layout
Demand(n, v) ==
  CASE n = 20 -> \A i \in DOMAIN v[1] : Len(v[1][i][2]) = ShareSize(v[1][i][1])
    [] n = 22 -> Len(v[2]) = ShareSize(v[1])
    [] n = 23 -> Len(v[1]) = Len(v[2])
    [] n = 27 -> v[1] # <<>> /\ v[1][1][1] = <<0>>
    [] n = 28 -> v[5] = <<<<0>>>>
    [] n = 29 -> v[4] = <<0>> /\ v[6] = <<<<0>>>>
    [] OTHER -> TRUE

RECURSIVE Enc(_, _), EncAll(_, _), EncSt(_, _), Dec(_, _), DecVec(_, _), DecArr(_, _, _), DecSt(_, _), DecMap(_, _)
Enc(t, v) ==
  CASE t.k = "u" -> OK(v)
    [] t.k = "vi" -> VarEnc(v)
    [] t.k = "even" -> IF v[1] % 2 = 0 THEN OK(v) ELSE Fail
    [] t.k = "cust" -> OK(<<192>> \o v)
    [] t.k = "arr" -> EncAll(t.e[1], v)
    [] t.k = "vec" -> LET body == EncAll(Inner(t), v) IN
                      IF body.ok THEN Cat2(LenEnc(t, Len(body.b)), body) ELSE Fail
    [] t.k = "map" ->
         LET ke == [i \in DOMAIN v |-> Enc(t.e[1], v[i][1])]
             ve == [i \in DOMAIN v |-> Enc(t.e[2], v[i][2])]
             s == Sorted([i \in DOMAIN v |-> [key |-> ke[i].b, val |-> ve[i].b]])
             flat[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE flat[i - 1] \o s[i].key \o s[i].val IN
         IF \E i \in DOMAIN v : ~ke[i].ok \/ ~ve[i].ok THEN Fail
         ELSE Cat2(LenEnc(t, Len(flat[Len(s)])), OK(flat[Len(s)]))
    [] t.k = "opt" -> IF v = <<>> THEN OK(<<0>>) ELSE Cat2(OK(<<1>>), Enc(t.e[1], v[1]))
    [] t.k = "ptr" -> IF v = <<>> THEN Fail ELSE Enc(t.e[1], v[1])
    [] t.k = "st" -> EncSt(t.e, v)
    [] t.k = "omit" -> OK(<<>>)
    [] t.k = "named" -> IF Demand(t.n, v) THEN Enc(t.e[1], v) ELSE Fail
    [] OTHER -> Fail
EncAll(e, v) == IF v = <<>> THEN OK(<<>>)
                ELSE IF e.k = "u" /\ e.n = 1 THEN OK([i \in DOMAIN v |-> v[i][1]])
                ELSE Cat2(Enc(e, v[1]), EncAll(e, Tail(v)))
EncSt(e, v) == IF e = <<>> THEN OK(<<>>) ELSE Cat2(Enc(e[1], v[1]), EncSt(Tail(e), Tail(v)))

No == [ok |-> FALSE, v |-> <<>>, n |-> 0]
Got(v, n) == [ok |-> TRUE, v |-> v, n |-> n]
From(b, n) == SubSeq(b, n + 1, Len(b))
Dec(t, b) ==
  CASE t.k = "u" -> IF Len(b) < t.n THEN No ELSE Got(SubSeq(b, 1, t.n), t.n)
    [] t.k = "vi" -> LET d == VarDec(b) IN
                     IF d.n = 0 \/ (\E i \in 1..(8 - t.n) : d.b[i] # 0) THEN No
                     ELSE Got(SubSeq(d.b, 9 - t.n, 8), d.n)
    [] t.k = "even" -> IF b = <<>> \/ b[1] % 2 = 1 THEN No ELSE Got(SubSeq(b, 1, 1), 1)
    [] t.k = "cust" -> IF Len(b) < 2 \/ b[1] # 192 THEN No ELSE Got(SubSeq(b, 2, 2), 2)
    [] t.k = "arr" -> DecArr(t.e[1], t.n, b)
    [] t.k = "vec" -> LET l == LenDec(t, b)
                          d == DecVec(Inner(t), SubSeq(b, l.n + 1, l.n + l.len)) IN
                      IF ~l.ok THEN No ELSE IF ~d.ok THEN No ELSE Got(d.v, l.n + l.len)
    [] t.k = "map" -> LET l == LenDec(t, b)
                          d == DecMap(t, SubSeq(b, l.n + 1, l.n + l.len))
                          s == Sorted(d.v) IN
                      IF ~l.ok THEN No ELSE IF ~d.ok THEN No
                      ELSE Got([i \in DOMAIN s |-> s[i].val], l.n + l.len)
    [] t.k = "opt" -> IF b = <<>> THEN No
                      ELSE IF b[1] = 0 THEN Got(<<>>, 1)
                      ELSE IF b[1] # 1 THEN No
                      ELSE LET d == Dec(t.e[1], Tail(b)) IN IF d.ok THEN Got(<<d.v>>, d.n + 1) ELSE No
    [] t.k = "ptr" -> LET d == Dec(t.e[1], b) IN IF d.ok THEN Got(<<d.v>>, d.n) ELSE No
    [] t.k = "st" -> DecSt(t.e, b)
    [] t.k = "omit" -> Got(<<>>, 0)
    [] t.k = "named" -> LET d == Dec(t.e[1], b) IN IF d.ok /\ Demand(t.n, d.v) THEN d ELSE No
    [] OTHER -> No
\* every element has to take something, or its number could not be told from the body
DecVec(e, b) ==
  IF b = <<>> THEN Got(<<>>, 0)
  ELSE IF e.k = "u" /\ e.n = 1 THEN Got([i \in DOMAIN b |-> <<b[i]>>], Len(b))
  ELSE LET d == Dec(e, b) IN
       IF ~d.ok \/ d.n = 0 THEN No
       ELSE LET r == DecVec(e, From(b, d.n)) IN IF r.ok THEN Got(<<d.v>> \o r.v, d.n + r.n) ELSE No
DecArr(e, n, b) ==
  IF n = 0 THEN Got(<<>>, 0)
  ELSE LET d == Dec(e, b) IN
       IF ~d.ok THEN No
       ELSE LET r == DecArr(e, n - 1, From(b, d.n)) IN IF r.ok THEN Got(<<d.v>> \o r.v, d.n + r.n) ELSE No
DecSt(e, b) ==
  IF e = <<>> THEN Got(<<>>, 0)
  ELSE LET d == Dec(e[1], b) IN
       IF ~d.ok THEN No
       ELSE LET r == DecSt(Tail(e), From(b, d.n)) IN IF r.ok THEN Got(<<d.v>> \o r.v, d.n + r.n) ELSE No
DecMap(t, b) ==
  IF b = <<>> THEN Got(<<>>, 0)
  ELSE LET k == Dec(t.e[1], b)
           v == Dec(t.e[2], From(b, k.n))
           r == DecMap(t, From(b, k.n + v.n)) IN
       IF ~k.ok THEN No ELSE IF ~v.ok \/ k.n + v.n = 0 THEN No ELSE IF ~r.ok THEN No
       ELSE Got(<<[key |-> Enc(t.e[1], k.v).b, val |-> <<k.v, v.v>>]>> \o r.v, k.n + v.n + r.n)

----------------------------------------------------------------------------
(* values worth trying *)
UVals(n) == IF n = 1 THEN <<<<0>>, <<1>>, <<128>>, <<255>>, <<2>>, <<63>>, <<64>>>>
            ELSE <<Zeros(n), [i \in 1..n |-> i], [i \in 1..n |-> 255], [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..n |-> IF i = n THEN 255 ELSE 0]>>
Pad(n, b) == Zeros(n - Len(b)) \o b
VIVals(n) ==
  LET all == << <<0>>, <<1>>, <<63>>, <<64>>, <<255>>, <<1, 0>>, <<63, 255>>, <<64, 0>>, <<255, 255>>, <<1, 0, 0>>, <<63, 255, 255, 255>>, <<64, 0, 0, 0>>, <<255, 255, 255, 255>>,
               <<1, 0, 0, 0, 0>>, <<63, 255, 255, 255, 255, 255, 255, 255>>, <<64, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>> >>
      fit == SelectSeq(all, LAMBDA b : Len(b) <= n) IN
  [i \in DOMAIN fit |-> Pad(n, fit[i])]
Pick(s, i) == s[((i - 1) % Len(s)) + 1]
\* the lengths of a vector that are close to one of its limits
Counts(t) ==
  LET small == {0, 1, 2, 3}
      near(x) == {y \in {x - 1, x, x + 1} : y >= 0}
      unit == IF t.e[1].k \in {"u", "even"} THEN t.e[1].n ELSE 0
      lim == (IF t.lo > 0 THEN near(t.lo) ELSE {}) \cup (IF t.hi > 0 THEN near(t.hi) ELSE {})
             \cup (IF t.h = 1 THEN near(256) ELSE {}) \cup (IF t.h = 9 THEN near(64) ELSE {}) IN
  IF t.k = "map" THEN {0, 1, 2, 3} ELSE
  IF unit = 0 THEN small
  ELSE small \cup {x \div unit : x \in lim} \cup {x \div unit + 1 : x \in lim}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})
Bytes(n, x) == [i \in 1..n |-> <<(x + i) % 256>>]
Share(g, n) == <<g, Bytes(n, 3)>>
X29 == <<0, 29>>
P256 == <<0, 23>>
AnExt == <<<<0, 43>>, Bytes(3, 1)>>
Random == [i \in 1..32 |-> <<i>>]
Suites == <<<<19, 1>>, <<19, 2>>>>
NamedVals(n) ==
  CASE n = 20 -> << <<<<>>>>, <<<<Share(X29, 32)>>>>, <<<<Share(P256, 65), Share(X29, 32)>>>>, <<<<Share(P256, 65), Share(X29, 31)>>>>, <<<<Share(<<0, 24>>, 97), Share(<<0, 25>>, 133), Share(<<1, 0>>, 256)>>>>,
                    <<<<Share(<<9, 9>>, 1)>>>>, <<<<Share(<<9, 9>>, 0)>>>>, <<<<Share(X29, 33), Share(P256, 65)>>>> >>
    [] n = 22 -> << Share(X29, 32), Share(P256, 65), Share(X29, 31), Share(P256, 64), Share(<<0, 24>>, 97), Share(<<9, 9>>, 32) >>
    [] n = 23 -> << <<<<<<Bytes(4, 0), <<0, 0, 0, 7>>>>>>, <<<<Bytes(32, 1)>>>>>>,
                    <<<<<<Bytes(1, 0), <<255, 0, 0, 7>>>>, <<Bytes(9, 5), <<0, 0, 1, 0>>>>>>, <<<<Bytes(32, 1)>>, <<Bytes(48, 9)>>>>>>,
                    <<<<<<Bytes(4, 0), <<0, 0, 0, 7>>>>>>, <<<<Bytes(32, 1)>>, <<Bytes(32, 2)>>>>>>,
                    <<<<<<Bytes(4, 0), <<0, 0, 0, 7>>>>, <<Bytes(4, 0), <<0, 0, 0, 7>>>>>>, <<<<Bytes(32, 1)>>>>>>,
                    <<<<<<Bytes(4, 0), <<0, 0, 0, 7>>>>>>, <<<<Bytes(31, 1)>>>>>> >>
    [] n = 27 -> << <<<< <<<<0>>, Bytes(5, 96)>> >>>>, <<<< <<<<0>>, Bytes(1, 96)>>, <<<<1>>, Bytes(2, 96)>> >>>>, <<<< <<<<1>>, Bytes(5, 96)>> >>>>, <<<< <<<<0>>, <<>>>> >>>> >>
    [] n = 28 -> << <<<<3, 3>>, Random, <<>>, Suites, <<<<0>>>>, <<AnExt>>>>, <<<<3, 3>>, Random, Bytes(32, 0), Suites, <<<<0>>>>, <<>>>>, <<<<3, 3>>, Random, Bytes(33, 0), Suites, <<<<0>>>>, <<>>>>,
                    <<<<3, 3>>, Random, <<>>, <<>>, <<<<0>>>>, <<AnExt>>>> >>
    [] n = 29 -> << <<<<254, 253>>, Random, <<>>, <<0>>, Suites, <<<<0>>>>, <<AnExt>>>>, <<<<254, 253>>, Random, Bytes(32, 0), <<0>>, Suites, <<<<0>>>>, <<>>>>,
                    <<<<254, 253>>, Random, <<>>, <<0>>, <<>>, <<<<0>>>>, <<AnExt>>>> >>
    [] n = 30 -> << <<<<>>>>, <<<<<<Bytes(2, 103)>>>>>>, <<<<<<Bytes(2, 103)>>, <<Bytes(8, 103)>>>>>>, <<<<<<<<>>>>>>>> >>
    [] OTHER -> <<>>
RECURSIVE Vals(_)
Vals(t) ==
  CASE t.k = "u" -> UVals(t.n)
    [] t.k = "vi" -> VIVals(t.n)
    [] t.k = "even" -> << <<0>>, <<2>>, <<1>>, <<254>>, <<255>> >>
    [] t.k = "cust" -> << <<0>>, <<192>>, <<255>> >>
    [] t.k = "arr" -> LET e == Vals(t.e[1]) IN [r \in DOMAIN e |-> [i \in 1..t.n |-> Pick(e, r + i - 1)]]
    [] t.k = "vec" -> LET e == Vals(Inner(t))
                          c == SeqOf(Counts(t))
                          m == Len(c) IN
                      [r \in 1..(m * 2) |-> [i \in 1..c[((r - 1) % m) + 1] |-> Pick(e, i + (r - 1) \div m)]]
    [] t.k = "map" -> LET ks == Vals(t.e[1])
                          vs == Vals(t.e[2])
                          s(k, r) == [i \in 1..k |-> <<ks[k + 1 - i], Pick(vs, r + i)>>] IN
                      << s(0, 1), s(1, 1), s(2, 2), s(3, 1), <<<<ks[1], Pick(vs, 1)>>, <<ks[3], Pick(vs, 3)>>>> >>
    [] t.k \in {"opt", "ptr"} -> LET e == Vals(t.e[1]) IN [r \in 1..(Len(e) + 1) |-> IF r = 2 THEN <<>> ELSE IF r = 1 THEN <<e[1]>> ELSE <<e[r - 1]>>]
    [] t.k = "st" -> LET f == [i \in DOMAIN t.e |-> Vals(t.e[i])]
                         top == CHOOSE m \in {Len(f[i]) : i \in DOMAIN f} \cup {1} : \A i \in DOMAIN f : Len(f[i]) <= m IN
                     [r \in 1..(IF Len(t.e) > 1 THEN top + 2 ELSE top) |-> [i \in DOMAIN t.e |-> Pick(f[i], r + (i - 1) * (IF r > top THEN 1 ELSE 0))]]
    [] t.k \in {"omit"} -> << <<>> >>
    [] t.k = "named" -> NamedVals(t.n) \o Vals(t.e[1])
    [] OTHER -> Vals(t.e[1])

\* the last field takes all that is left
RECURSIVE Rest(_)
Rest(t) == CASE t.k \in {"vec", "map"} -> t.h = 0
             [] t.k = "st" -> \E i \in DOMAIN t.e : Rest(t.e[i])
             [] t.k \in {"opt", "ptr", "named", "arr"} -> Rest(t.e[1])
             [] OTHER -> FALSE
\* the layout leaves one encoding only
RECURSIVE Canon(_)
Canon(t) == /\ t.k # "vi" /\ t.k # "map" /\ (t.k = "vec" => t.h # 9) /\ t.k # "omit"
            /\ \A i \in DOMAIN t.e : Canon(t.e[i])

----------------------------------------------------------------------------
None == [op |-> "none"]
Ty == Types[ti]
Init == ti \in DOMAIN Types /\ cas = None
EncCase(v) == LET e == Enc(Ty, v) IN [op |-> "enc", t |-> Ty, v |-> v, ok |-> e.ok, b |-> e.b]
DecCase(b) == LET d == Dec(Ty, b) IN [op |-> "dec", t |-> Ty, b |-> b, ok |-> d.ok, v |-> d.v, n |-> d.n, canon |-> Canon(Ty)]
Encode == \E i \in DOMAIN Vals(Ty) : cas' = EncCase(Vals(Ty)[i])
Good == {b \in {Enc(Ty, Vals(Ty)[i]) : i \in DOMAIN Vals(Ty)} : b.ok /\ Len(b.b) < 300}
Changes(b) == {b[1], (b[1] + 1) % 256, (b[1] + 255) % 256}
Mutated(b) ==
  {b, b \o <<0>>, b \o <<255, 1>>, Tail(b \o <<0>>)}
  \cup {SubSeq(b, 1, i) : i \in {j \in 0..(Len(b) - 1) : j <= MutPos \/ j >= Len(b) - 2}}
  \cup {[b EXCEPT ![p] = x] : p \in {q \in 1..Len(b) : q <= MutPos}, x \in RawBytes}
  \cup {[b EXCEPT ![p] = (@ + x) % 256] : p \in {q \in 1..Len(b) : q <= MutPos \/ (Ty.k = "named" /\ q <= 90)}, x \in {1, 255}}
Mutate == \E g \in Good : \E b \in Mutated(g.b) : cas' = DecCase(b)
Raw == \E n \in 0..RawLen : \E b \in [1..n -> RawBytes] : cas' = DecCase(b)
\* vectors too long to write out: n bytes of one element that encodes itself
BigCase(t, n) == LET e == LenEnc(t, n) IN [op |-> "big", t |-> t, n |-> n, ok |-> e.ok, b |-> e.b]
BigVec == ti = 1 /\ \E c \in Bigs : cas' = BigCase(c[1], c[2])
Next == cas = None /\ (Encode \/ Mutate \/ Raw \/ BigVec) /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars

\* decoding an encoding restores the value, whatever follows it
RoundTrip == cas.op = "enc" /\ cas.ok =>
  LET d == Dec(Ty, cas.b)
      x == Dec(Ty, cas.b \o <<7, 7>>) IN
  d.ok /\ d.n = Len(cas.b) /\ Enc(Ty, d.v) = OK(cas.b) /\ (~Rest(Ty) => x = d)
\* what decodes encodes to what was consumed; where the layout leaves a choice, to something that decodes to the same
Strict == cas.op = "dec" /\ cas.ok =>
  LET e == Enc(Ty, cas.v) IN
  /\ cas.n <= Len(cas.b)
  /\ cas.canon => e = OK(SubSeq(cas.b, 1, cas.n))
  /\ e.ok => Dec(Ty, e.b).v = cas.v
Emit == cas.op # "none" => PrintT("CASE " \o ToJson(cas))
=============================================================================
