------------------------------- MODULE Alerts -------------------------------
(***************************************************************************)
(* Alerts on a connected endpoint.  The peer sends application data,       *)
(* alerts of any level, description and size, key updates, tickets and     *)
(* illegal records in any order; the application reads, writes and updates *)
(* keys in any order.  The endpoint consumes its input only when it is     *)
(* asked to read and has nothing buffered; a close_notify, a fatal alert   *)
(* or an error ends the stream after all earlier data and before           *)
(* everything later; other warnings change nothing.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Modes,    \* kinds of endpoint: [role, dtls]
          Items,    \* what the peer can send: [k, l, d]
          Ops,      \* what the application can do
          Shape,    \* <<>>, or the sequence of step names to which behaviours are restricted
          MaxOps, Emit
VARIABLES mode, E, all, hist, fin
vars == <<mode, E, all, hist, fin>>

None == [k |-> "none", d |-> 0]
Init == /\ mode \in Modes
        /\ E = [q |-> <<>>, buf |-> 0, term |-> None, gen |-> 0, rd |-> 0, out |-> <<>>]
        /\ all = <<>> /\ hist = <<>> /\ fin = FALSE

(* ---- what one received record does ------------------------------------ *)
Fatal == 2
Warning == 1
IsClose(x)  == x.k = "alert" /\ x.d = 0 /\ x.l \in {Warning, Fatal}
IsWarn(x)   == x.k = "alert" /\ x.l = Warning /\ x.d # 0
IsFatal(x)  == x.k = "alert" /\ x.l = Fatal /\ x.d # 0
\* detected by the endpoint itself
IsLocal(x)  == \/ x.k = "alert" /\ x.l \notin {Warning, Fatal}
               \/ x.k \in {"short", "long", "empty", "bad"}
               \/ x.k = "nst" /\ mode.role = "server"
\* not part of the authenticated stream
\* (a record in the clear belongs to another epoch in DTLS and is ignored)
IsOld(x)    == x.k = "plain" /\ mode.dtls
IsBroken(x) == x.k \in {"plain", "badrec", "ack"} /\ ~IsOld(x)
Harmless(x) == IsWarn(x) \/ IsOld(x) \/ x.k \in {"data", "ku0", "ku1"} \/ (x.k = "nst" /\ mode.role = "client")

Eat(T) ==
  LET x == Head(T.q)
      U == [T EXCEPT !.q = Tail(@)] IN
  CASE x.k = "data"  -> [U EXCEPT !.buf = 2]
    [] IsClose(x)    -> [U EXCEPT !.term = [k |-> "eof", d |-> 0]]
    [] IsFatal(x)    -> [U EXCEPT !.term = [k |-> "alert", d |-> x.d]]
    [] IsLocal(x)    -> [U EXCEPT !.term = [k |-> IF x.k = "alert" /\ x.d = 0 THEN "ended" ELSE "local", d |-> 0]]
    [] IsBroken(x)   -> [U EXCEPT !.term = [k |-> "err", d |-> 0]]
    [] x.k = "ku1"   -> [U EXCEPT !.out = Append(@, [t |-> "ku", g |-> T.gen]), !.gen = @ + 1]
    [] OTHER         -> U
RECURSIVE Fill(_)
Fill(T) == IF T.buf > 0 \/ T.term # None \/ T.q = <<>> THEN T ELSE Fill(Eat(T))

\* Read with a buffer for half a chunk: one call.
ReadHalf(T) == LET F == Fill(T) IN IF F.buf > 0 THEN [F EXCEPT !.buf = @ - 1, !.rd = @ + 1] ELSE F
\* Read until there is nothing more.
RECURSIVE ReadAll(_)
ReadAll(T) == LET F == Fill(T) IN IF F.buf > 0 THEN ReadAll([F EXCEPT !.rd = @ + F.buf, !.buf = 0]) ELSE F

(* ---- steps -------------------------------------------------------------- *)
May(n) == /\ ~fin /\ Len(hist) < MaxOps
          /\ Shape # <<>> => Shape[Len(hist) + 1] = n
Log(a, x) == hist' = Append(hist, [a |-> a, x |-> x, rd |-> E'.rd, out |-> E'.out, blk |-> (E'.buf = 0 /\ E'.q = <<>> /\ E'.term = None),
                                   term |-> IF E'.buf = 0 /\ a \in {"Ra", "Rh"} THEN E'.term ELSE None])
\* mint numbers every DTLS key update with the same epoch; more than two are not covered.
Updates == Cardinality({i \in DOMAIN all : all[i].k \in {"ku0", "ku1"}}) + Cardinality({i \in DOMAIN hist : hist[i].a = "K"})
MayUpdate == mode.dtls => Updates < 2
Send(x) == /\ May(x.k) /\ E.term = None /\ (x.k \in {"ku0", "ku1"} => MayUpdate)
           /\ E' = [E EXCEPT !.q = Append(@, x)] /\ all' = Append(all, x)
           /\ Log("P", x) /\ UNCHANGED <<mode, fin>>
Half == /\ May("Rh") /\ "Rh" \in Ops /\ (E.buf > 0 \/ E.q # <<>>)
        /\ E' = ReadHalf(E) /\ Log("Rh", "") /\ fin' = (E'.term.k = "err" /\ E'.rd = E.rd)
        /\ UNCHANGED <<mode, all>>
All  == /\ May("Ra") /\ (Shape # <<>> \/ Len(hist) > 0)
        /\ E' = ReadAll(E) /\ Log("Ra", "") /\ fin' = (E'.term.k = "err")
        /\ UNCHANGED <<mode, all>>
Write == /\ May("W") /\ "W" \in Ops /\ E.term = None
         /\ E' = [E EXCEPT !.out = Append(@, [t |-> "app", g |-> E.gen])] /\ Log("W", "")
         /\ UNCHANGED <<mode, all, fin>>
Update == /\ May("K") /\ MayUpdate /\ "K" \in Ops /\ E.term = None
          /\ E' = [E EXCEPT !.out = Append(@, [t |-> "ku", g |-> E.gen]), !.gen = @ + 1] /\ Log("K", "")
          /\ UNCHANGED <<mode, all, fin>>
Next == Half \/ All \/ Write \/ Update \/ \E x \in Items : Send(x)
Spec == Init /\ [][Next]_vars

(* ---- properties, stated over what the peer sent ------------------------- *)
Ender(x) == ~Harmless(x)
FirstEnd == LET S == {i \in DOMAIN all : Ender(all[i])} IN IF S = {} THEN Len(all) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
DataBefore(n) == 2 * Cardinality({i \in 1..(n - 1) : all[i].k = "data"})
\* only data sent before the end of the stream is delivered, and all of it before the end is reported
DataInv == /\ E.rd + E.buf <= DataBefore(FirstEnd)
           /\ E.term # None => E.rd + E.buf = DataBefore(FirstEnd)
\* the end that is reported is the one the peer sent first
EndInv == E.term # None =>
   LET x == all[FirstEnd] IN
   /\ E.term.k = "eof"   <=> IsClose(x)
   /\ E.term.k = "alert" <=> IsFatal(x)
   /\ E.term.k = "alert" => E.term.d = x.d
\* warnings are transparent
WarnInv == (E.q = <<>> /\ \A i \in DOMAIN all : Harmless(all[i])) => E.term = None /\ E.rd + E.buf = DataBefore(Len(all) + 1)
TermFinal == [][E.term # None => E'.term = E.term]_vars
\* write keys change only with a KeyUpdate record under the old keys
GenInv == E.gen = Cardinality({i \in DOMAIN E.out : E.out[i].t = "ku"}) /\
          \A i \in 1..(Len(E.out) - 1) : E.out[i + 1].g = E.out[i].g + (IF E.out[i].t = "ku" THEN 1 ELSE 0)

Done == fin' \/ Len(hist') = MaxOps
EmitT == (Emit /\ Done /\ hist'[Len(hist')].a = "Ra") => PrintT("CASE " \o ToJson([mode |-> mode, steps |-> hist']))
\* behaviours that do not end by reading everything show nothing new
Useful == (Len(hist') = MaxOps /\ ~fin') => hist'[Len(hist')].a = "Ra"
=============================================================================
