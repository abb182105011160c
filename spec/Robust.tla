------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* Hostile input (C14).                                                    *)
(*                                                                         *)
(* A peer sends one of the legal flights; at any place it attacks, once or *)
(* several times: it changes the message that is due there at one node of  *)
(* its grammar, or the bytes of the message, of its record or (DTLS) of    *)
(* its fragments, or inserts something of its own, or floods.  Everything  *)
(* else is computed honestly for what was really sent, so the endpoint is  *)
(* as deep in the protocol as it can be when it meets the next attack.     *)
(* Then the transport goes quiet, ends, ends in the middle of a record, or *)
(* fails.                                                                  *)
(*                                                                         *)
(* The grammar of every message is part of the specification: Nodes(g) are *)
(* its nodes and NodeOps what can be done to each.                         *)
(*                                                                         *)
(* What the caller of the endpoint may see meanwhile is the contract       *)
(* (Calls): a call returns progress, data, would-block or an error; would- *)
(* block only while the transport is open, progress only finitely often    *)
(* without new input.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Flights,   \* name -> [msgs |-> <<[m, k]>>, dtls |-> BOOLEAN]
          MaxAtk,    \* attacks per behaviour
          Second,    \* attacks that may follow another one
          Ends,      \* how the transport ends
          Emit

(* ---- grammar ---------------------------------------------------------- *)
Fix(n)    == [t |-> "fix", n |-> n]
Rest      == [t |-> "rest"]
Bytes(h)  == [t |-> "bytes", h |-> h]
Vec(h, e) == [t |-> "vec", h |-> h, el |-> e]
Seq_(fs)  == [t |-> "seq", fs |-> fs]
Exts(as)  == [t |-> "exts", as |-> as]       \* <<[x |-> extension type, g |-> grammar]>>
X(x, g)   == [x |-> x, g |-> g]

CHExts == Exts(<< X(43, Vec(1, Fix(2))), X(0, Vec(2, Seq_(<<Fix(1), Bytes(2)>>))), X(10, Vec(2, Fix(2))),
                  X(13, Vec(2, Fix(2))), X(51, Vec(2, Seq_(<<Fix(2), Bytes(2)>>))), X(16, Vec(2, Bytes(1))),
                  X(44, Bytes(2)), X(45, Bytes(1)), X(42, Rest),
                  X(41, Seq_(<<Vec(2, Seq_(<<Bytes(2), Fix(4)>>)), Vec(2, Bytes(1))>>)) >>)
SHExts == Exts(<< X(43, Fix(2)), X(51, Seq_(<<Fix(2), Bytes(2)>>)), X(41, Fix(2)), X(44, Bytes(2)) >>)
Grammar(k) ==
  CASE k = "CH"   -> Seq_(<<Fix(2), Fix(32), Bytes(1), Vec(2, Fix(2)), Bytes(1), CHExts>>)
    [] k = "CHd"  -> Seq_(<<Fix(2), Fix(32), Bytes(1), Bytes(1), Vec(2, Fix(2)), Bytes(1), CHExts>>)
    [] k = "SH"   -> Seq_(<<Fix(2), Fix(32), Bytes(1), Fix(2), Fix(1), SHExts>>)
    [] k = "EE"   -> Seq_(<<Exts(<<X(16, Vec(2, Bytes(1))), X(42, Rest), X(10, Vec(2, Fix(2)))>>)>>)
    [] k = "CR"   -> Seq_(<<Bytes(1), Exts(<<X(13, Vec(2, Fix(2)))>>)>>)
    [] k = "Cert" -> Seq_(<<Bytes(1), Vec(3, Seq_(<<Bytes(3), Exts(<<>>)>>))>>)
    [] k = "CV"   -> Seq_(<<Fix(2), Bytes(2)>>)
    [] k = "NST"  -> Seq_(<<Fix(4), Fix(4), Bytes(1), Bytes(2), Exts(<<X(42, Fix(4))>>)>>)
    [] k = "KU"   -> Fix(1)
    [] k = "Fin"  -> Rest
    [] k = "EOED" -> Rest
    [] OTHER      -> Rest

RECURSIVE Nodes(_)
\* paths: field index, 0 for "every element", extension type + 1000
Nodes(g) ==
  {[p |-> <<>>, t |-> g.t]} \cup
  CASE g.t = "seq"  -> UNION {{[p |-> <<i>> \o n.p, t |-> n.t] : n \in Nodes(g.fs[i])} : i \in DOMAIN g.fs}
    [] g.t = "vec"  -> {[p |-> <<0>> \o n.p, t |-> n.t] : n \in Nodes(g.el)}
    [] g.t = "exts" -> UNION {{[p |-> <<1000 + g.as[i].x>> \o n.p, t |-> n.t] : n \in Nodes(g.as[i].g)}
                              \cup {[p |-> <<1000 + g.as[i].x>>, t |-> "ext"]} : i \in DOMAIN g.as}
    [] OTHER        -> {}

VecOps == {"empty", "one", "dropfirst", "droplast", "duplast", "trunc", "extend", "fill", "len0", "lenless", "lenmore", "lenmax"}
NodeOps(t) ==
  CASE t = "fix"   -> {"zero", "ones", "flip", "inc", "dec", "drop", "double", "trunc"}
    [] t = "rest"  -> {"empty", "trunc", "extend", "flip", "double"}
    [] t = "bytes" -> VecOps \cup {"flip"}
    [] t = "vec"   -> VecOps
    [] t = "exts"  -> VecOps \cup {"unknown", "rotate", "many"}
    [] t = "ext"   -> {"dropext", "dupext", "emptyext", "growext", "retype"}
    [] t = "seq"   -> {"drop", "double"}

(* ---- attacks ----------------------------------------------------------- *)
NodeAtk(k)  == UNION {{[l |-> "node", o |-> o, p |-> n.p] : o \in NodeOps(n.t)} : n \in Nodes(Grammar(k))}
ByteAtk     == {[l |-> "byte", o |-> o, p |-> <<>>] : o \in
                 {"flip", "cut", "type", "hdrlen", "mix"}}
\* the record(s) the message travels in
RecAtk      == {[l |-> "rec", o |-> o, p |-> <<>>] : o \in
                 {"flip", "endcut", "type", "len", "inner", "pad", "allpad", "short", "version", "split", "clear", "twice", "junk", "shift"}}
\* something else before the message that is due
InsAtk      == {[l |-> "ins", o |-> o, p |-> <<>>] : o \in
                 {"empty.hs", "empty.app", "empty.alert", "empty.ccs", "ccs", "ack", "alert", "unknown", "hs.partial", "hs.huge", "hs.zero", "app", "full", "over", "random"}}
FloodAtk    == {[l |-> "flood", o |-> o, p |-> <<>>] : o \in
                 {"empty.hs", "empty.app", "hs.zero", "ku0", "ku1", "nst", "warn", "app1", "onebyte", "garbage", "again"}}
DtlsAtk     == {[l |-> "dtls", o |-> o, p |-> <<>>] : o \in
                 {"total", "over", "hole", "zerofrag", "huge", "future", "past", "overlap", "epoch", "number", "multi", "tail", "hdr",
                  "ack.empty", "ack.odd", "ack.len", "ack.unknown", "ack.many", "ack.all", "ack.future", "dup", "tiny", "reverse"}}
Atks(k, dtls) == NodeAtk(k) \cup ByteAtk \cup RecAtk \cup InsAtk \cup FloodAtk \cup (IF dtls THEN DtlsAtk ELSE {})

(* ---- attack programs ---------------------------------------------------- *)
VARIABLES fl, pos, prog, fin
pvars == <<fl, pos, prog, fin>>
PInit == fl \in DOMAIN Flights /\ pos = 1 /\ prog = <<>> /\ fin = ""
Due   == Flights[fl].msgs[pos]
Deliver == fin = "" /\ pos <= Len(Flights[fl].msgs) /\ pos' = pos + 1 /\ UNCHANGED <<fl, prog, fin>>
Attack == /\ fin = "" /\ pos <= Len(Flights[fl].msgs) /\ Len(prog) < MaxAtk
          /\ \E a \in Atks(Due.k, Flights[fl].dtls) :
               /\ prog # <<>> => (a.l \o "." \o a.o) \in Second /\ prog[Len(prog)].at < pos
               /\ prog' = Append(prog, [at |-> pos, a |-> a])
          /\ pos' = pos + 1 /\ UNCHANGED <<fl, fin>>
\* the transport ends after the flight, or right after the last attack
End == /\ fin = "" /\ prog # <<>>
       /\ pos = Len(Flights[fl].msgs) + 1 \/ prog[Len(prog)].at = pos - 1
       /\ \E e \in Ends : fin' = e
       /\ UNCHANGED <<fl, pos, prog>>
PNext == Deliver \/ Attack \/ End
PSpec == PInit /\ [][PNext]_pvars
EmitT == (Emit /\ fin' # "") => PrintT("CASE " \o ToJson([fl |-> fl, msgs |-> Flights[fl].msgs, stop |-> pos - 1, prog |-> prog, fin |-> fin']))

\* every behaviour ends with a transport that is over, and every attack is aimed at a message of the flight
EndInv == fin # "" => prog # <<>> /\ \A i \in DOMAIN prog : prog[i].at \in DOMAIN Flights[fl].msgs
GrammarInv == fin = "" /\ pos <= Len(Flights[fl].msgs) => \A n \in Nodes(Grammar(Due.k)) : NodeOps(n.t) # {}

Kinds == {"CH", "CHd", "SH", "EE", "CR", "Cert", "CV", "NST", "KU", "Fin", "EOED"}
ASSUME Emit => \A k \in Kinds : PrintT("CASE " \o ToJson([kind |-> k, grammar |-> Grammar(k)]))
=============================================================================
