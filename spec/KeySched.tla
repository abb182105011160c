------------------------------ MODULE KeySched ------------------------------
(* The TLS 1.3 key schedule (RFC 8446 section 7) as a machine over a handshake. *)
(* Secrets are terms over the shared inputs (PSK, DHE) and the transcript; every *)
(* message names the key it travels under, and what it must prove.  The harness *)
(* evaluates the terms and plays the other endpoint with nothing but them.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Roles, Suites, Groups, MaxPost, MaxKU, MaxTickets, MaxConns
VARIABLES cf, st, hist
vars == <<cf, st, hist>>

\* ---- terms ----
None == [op |-> "none"]
Zero == [op |-> "zero"]
Dhe(c) == [op |-> "dhe", n |-> c]
External == [op |-> "psk"]
Extract(salt, ikm) == [op |-> "extract", a |-> salt, b |-> ikm]
Derive(s, l, t) == [op |-> "derive", a |-> s, l |-> l, tr |-> t]      \* Derive-Secret(s, l, t)
Label(s, l) == [op |-> "label", a |-> s, l |-> l]                     \* HKDF-Expand-Label(s, l, "", Hash.length)
Ticket(s, n) == [op |-> "ticket", a |-> s, n |-> n]                   \* HKDF-Expand-Label(s, "resumption", nonce, Hash.length)
Mac(s, t) == [op |-> "mac", a |-> Label(s, "finished"), tr |-> t]     \* HMAC over the transcript hash

\* ---- configurations ----
Conf(role, su, g, kind, ext, hrr, early, cauth) == [role |-> role, suite |-> su, group |-> g, kind |-> kind, ext |-> ext, hrr |-> hrr, early |-> early, cauth |-> cauth]
Confs ==
  {c \in [role : Roles, suite : Suites, group : Groups \cup {"-"}, kind : {"cert", "ke", "dhe"}, ext : BOOLEAN, hrr : BOOLEAN, early : BOOLEAN, cauth : BOOLEAN] :
     /\ (c.group = "-") <=> (c.kind = "ke")
     /\ c.kind = "cert" => ~c.early /\ ~c.ext
     /\ c.kind # "cert" => ~c.cauth
     /\ ~(c.hrr /\ c.early)}
\* what a resumption may look like
Resumed(c) == {d \in Confs : d.role = c.role /\ d.suite = c.suite /\ d.kind # "cert" /\ ~d.ext /\ (d.group = c.group \/ c.group = "-" \/ d.group = "-")}

\* ---- one handshake ----
Nm(c, m) == ToString(c) \o m
UsePSK(c) == c.kind # "cert"
Fresh(c, n, psk) ==
  [conn |-> n, at |-> "start", tr |-> <<>>, psk |-> psk, es |-> Extract(Zero, IF UsePSK(c) THEN psk ELSE Zero),
   hs |-> None, ms |-> None, cet |-> None, chs |-> None, shs |-> None, cap |-> None, sap |-> None, exp |-> None, res |-> None,
   ku |-> [c |-> 0, s |-> 0], tickets |-> 0, last |-> None, post |-> 0, ed |-> 0]
NextMsg ==
  CASE st.at = "start" -> IF cf.hrr THEN "CH1" ELSE "CH"
    [] st.at = "CH1" -> "HRR"
    [] st.at = "HRR" -> "CH"
    [] st.at = "CH" -> "SH"
    [] st.at = "SH" -> "EE"
    [] st.at = "EE" -> IF UsePSK(cf) THEN "SFIN" ELSE IF cf.cauth THEN "CR" ELSE "CT"
    [] st.at = "CR" -> "CT"
    [] st.at = "CT" -> "CV"
    [] st.at = "CV" -> "SFIN"
    [] st.at = "SFIN" -> IF cf.early THEN "EOED" ELSE IF cf.cauth THEN "CCT" ELSE "CFIN"
    [] st.at = "EOED" -> "CFIN"
    [] st.at = "CCT" -> "CCV"
    [] st.at = "CCV" -> "CFIN"
    [] OTHER -> "-"
By(m) == IF m \in {"HRR", "SH", "EE", "CR", "CT", "CV", "SFIN"} THEN "s" ELSE "c"
KeyOf(m) == CASE m \in {"CH1", "HRR", "CH", "SH"} -> None
              [] By(m) = "s" -> st.shs
              [] m = "EOED" -> st.cet
              [] OTHER -> st.chs
\* HelloRetryRequest replaces the first ClientHello by its hash
With(m) == IF m = "HRR" THEN <<Nm(st.conn, "MH"), Nm(st.conn, "HRR")>> ELSE Append(st.tr, Nm(st.conn, m))
BinderKey == Derive(st.es, IF cf.ext THEN "ext binder" ELSE "res binder", <<>>)
Proof(m) == CASE m \in {"CH1", "CH"} /\ UsePSK(cf) -> Mac(BinderKey, Append(st.tr, Nm(st.conn, m \o "-")))
              [] m = "SFIN" -> Mac(st.shs, st.tr)
              [] m = "CFIN" -> Mac(st.chs, st.tr)
              [] OTHER -> None
Step0 == [a |-> "msg", m |-> "-", by |-> "-", key |-> None, mac |-> None, tr |-> <<>>, c |-> st.conn, n |-> 0, req |-> FALSE, cf |-> cf]
Learn(m, t) ==
  CASE m = "CH" -> [st EXCEPT !.cet = IF cf.early THEN Derive(st.es, "c e traffic", t) ELSE None]
    [] m = "SH" -> LET h == Extract(Derive(st.es, "derived", <<>>), IF cf.kind = "ke" THEN Zero ELSE Dhe(st.conn))
                   IN [st EXCEPT !.hs = h, !.chs = Derive(h, "c hs traffic", t), !.shs = Derive(h, "s hs traffic", t),
                                 !.ms = Extract(Derive(h, "derived", <<>>), Zero)]
    [] m = "SFIN" -> [st EXCEPT !.cap = Derive(st.ms, "c ap traffic", t), !.sap = Derive(st.ms, "s ap traffic", t), !.exp = Derive(st.ms, "exp master", t)]
    [] m = "CFIN" -> [st EXCEPT !.res = Derive(st.ms, "res master", t)]
    [] OTHER -> st
Message ==
  LET m == NextMsg t == With(NextMsg) IN
  /\ m # "-"
  /\ st' = [Learn(m, t) EXCEPT !.at = m, !.tr = t]
  /\ hist' = Append(hist, [Step0 EXCEPT !.m = m, !.by = By(m), !.key = KeyOf(m), !.mac = Proof(m), !.tr = IF m \in {"CV", "CCV"} THEN st.tr ELSE <<>>])
  /\ UNCHANGED cf
EarlyData ==
  /\ st.at = "CH" /\ cf.early /\ st.ed < 2
  /\ st' = [st EXCEPT !.ed = @ + 1]
  /\ hist' = Append(hist, [Step0 EXCEPT !.a = "early", !.by = "c", !.key = st.cet])
  /\ UNCHANGED cf
\* the server may write before the client's Finished arrives
HalfRtt ==
  /\ st.at = "SFIN" /\ cf.role = "client" /\ st.post = 0
  /\ st' = [st EXCEPT !.post = 1]
  /\ hist' = Append(hist, [Step0 EXCEPT !.a = "data", !.m = "half", !.by = "s", !.key = st.sap])
  /\ UNCHANGED cf
\* ---- connected ----
Done == st.at = "CFIN"
Post(s2, steps) == Done /\ st.post < MaxPost /\ st' = [s2 EXCEPT !.post = @ + 1] /\ hist' = hist \o steps /\ UNCHANGED cf
App(s, w) == IF w = "c" THEN s.cap ELSE s.sap
Data(w) == Post(st, <<[Step0 EXCEPT !.a = "data", !.by = w, !.key = App(st, w)]>>)
Upd(s, w) == [s EXCEPT !.cap = IF w = "c" THEN Label(@, "traffic upd") ELSE @, !.sap = IF w = "s" THEN Label(@, "traffic upd") ELSE @, !.ku[w] = @ + 1]
KUStep(s, w, r) == [Step0 EXCEPT !.a = "ku", !.by = w, !.key = App(s, w), !.req = r]
Other(w) == IF w = "c" THEN "s" ELSE "c"
KeyUpdate(w, r) == /\ st.ku["c"] + st.ku["s"] < MaxKU
                   /\ Post(IF r THEN Upd(Upd(st, w), Other(w)) ELSE Upd(st, w),
                           IF r THEN <<KUStep(st, w, TRUE), KUStep(st, Other(w), FALSE)>> ELSE <<KUStep(st, w, FALSE)>>)
\* exporters: n numbers the label, context and length the harness chooses
Exporter(n) == Post(st, <<[Step0 EXCEPT !.a = "export", !.key = st.exp, !.n = n]>>)
\* mint's server sends a ticket when it completes, the reference server at any time
NewTicket == /\ st.tickets < MaxTickets /\ (cf.role = "server" => st.tickets = 0 /\ st.post = 0)
             /\ LET p == Ticket(st.res, st.tickets) IN
                Post([st EXCEPT !.tickets = @ + 1, !.last = p], <<[Step0 EXCEPT !.a = "nst", !.by = "s", !.key = st.sap, !.mac = p, !.n = st.tickets]>>)
Resume == /\ Done /\ st.last # None /\ st.conn < MaxConns
          /\ \E d \in Resumed(cf) : cf' = d /\ st' = Fresh(d, st.conn + 1, st.last) /\ UNCHANGED hist
Init == cf \in {c \in Confs : c.kind # "cert" => c.ext \in BOOLEAN} /\ hist = <<>> /\ st = Fresh(cf, 1, External)
Next == Message \/ EarlyData \/ HalfRtt \/ (\E w \in {"c", "s"} : Data(w) \/ \E r \in BOOLEAN : KeyUpdate(w, r))
        \/ (\E n \in 1..3 : Exporter(n)) \/ NewTicket \/ Resume
Spec == Init /\ [][Next]_vars

\* ---- properties of the schedule itself ----
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Leaves(_)
Leaves(t) == CASE t.op \in {"none", "zero"} -> {}
               [] t.op = "psk" -> {"psk"}
               [] t.op = "dhe" -> {Nm(t.n, "dhe")}
               [] t.op = "extract" -> Leaves(t.a) \cup Leaves(t.b)
               [] OTHER -> Leaves(t.a)
Use(h) == <<h.c, h.by, CASE h.a = "early" \/ h.m = "EOED" -> "early" [] h.a = "msg" -> "handshake" [] OTHER -> "application">>
\* a key serves one sender, one connection and one phase
Separate == \A i, j \in DOMAIN hist : (hist[i].a \notin {"export"} /\ hist[j].a \notin {"export"} /\ hist[i].key.op # "none" /\ Use(hist[i]) # Use(hist[j])) => hist[i].key # hist[j].key
\* after a KeyUpdate its sender never uses the old key again
Forward == \A i, j \in DOMAIN hist : (i < j /\ hist[i].a = "ku" /\ hist[i].c = hist[j].c /\ hist[i].by = hist[j].by /\ hist[j].a # "export") => hist[i].key # hist[j].key
\* every handshake and application key depends on this connection's key agreement unless the mode has none
Secrecy == \A i \in DOMAIN hist : LET h == hist[i] IN
             (h.key.op # "none" /\ h.cf.kind # "ke" /\ Use(h)[3] # "early") => Nm(h.c, "dhe") \in Leaves(h.key)
\* and on the PSK when there is one
Keyed == \A i \in DOMAIN hist : LET h == hist[i] IN (h.key.op # "none" /\ UsePSK(h.cf)) => Leaves(h.key) \ {Nm(h.c, "dhe")} # {}
\* nothing but hellos is sent in the clear
NoClear == \A i \in DOMAIN hist : hist[i].key.op = "none" => hist[i].m \in {"CH1", "HRR", "CH", "SH"}
\* a Finished covers every message of its connection before it
Bound == \A i \in DOMAIN hist : hist[i].m \in {"SFIN", "CFIN"} =>
           \A j \in DOMAIN hist : (j < i /\ hist[j].c = hist[i].c /\ hist[j].a = "msg" /\ hist[j].m # "CH1") => Nm(hist[j].c, hist[j].m) \in Range(hist[i].mac.tr)
Emit == (Done /\ st.post = MaxPost) => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
