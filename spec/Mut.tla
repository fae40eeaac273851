------------------------------- MODULE Mut -------------------------------
(* What every operation that changes the store does to it.                  *)
(* Operators return the next store, or [d |-> store, e |-> number of errors *)
(* reported] where the operation can be refused.                            *)
EXTENDS Query

Ok(D) == [d |-> D, e |-> 0]

(* ------------------------------ primitives ------------------------------ *)
Detach(D, n) ==
  IF D[n].p = 0 THEN D
  ELSE [D EXCEPT ![D[n].p].c = SelectSeq(@, LAMBDA m : m # n), ![n].p = 0]
RECURSIVE DetachAll(_, _)
DetachAll(D, S) == IF S = << >> THEN D ELSE DetachAll(Detach(D, S[1]), Tail(S))

(* put the parentless nodes S into the children of q after the first i *)
PutAt(D, q, i, S) ==
  [n \in Ids(D) |->
     IF n = q THEN [D[n] EXCEPT !.c = SubSeq(@, 1, i) \o S \o SubSeq(@, i + 1, Len(@))]
     ELSE IF n \in Range(S) THEN [D[n] EXCEPT !.p = q] ELSE D[n]]

(* add a tree, given as a term, under p; its top is node Len(D) + 1 *)
RECURSIVE AddTerm(_, _, _), AddTerms(_, _, _, _)
AddTerm(D, p, t) ==
  AddTerms(Append(D, [k |-> t.k, t |-> t.t, a |-> t.a, x |-> t.x, p |-> p, c |-> << >>]),
           Len(D) + 1, t.c, 1)
AddTerms(D, q, ts, i) ==
  IF i > Len(ts) THEN D
  ELSE AddTerms([AddTerm(D, q, ts[i]) EXCEPT ![q].c = Append(@, Len(D) + 1)], q, ts, i + 1)
Copy(D, n) == AddTerm(D, 0, Term(D, n))

(* ------------------------------- insertion ------------------------------ *)
IsDocument(D, n) == IsRoot(D, n) /\ \E m \in Range(ElKids(D, n)) : D[m].t = "html"
IsFragment(D, n) == IsRoot(D, n) /\ ~IsDocument(D, n)
MayHold(D, q, m) == /\ D[q].t \notin VoidTags
                    /\ D[q].t \in PlainTags => IsText(D, m)
Sibling(pos) == pos \in {"before", "after"}
Refused(D, pos, q, n) ==
  \/ ~IsEl(D, q)
  \/ IsDocument(D, n)
  \/ n = q \/ n \in Anc(D, q)
  \/ pos \in {"before", "after", "replace"} /\ D[q].p = 0
  \/ ~Sibling(pos) /\ pos # "replace" /\ ~IsRoot(D, n) /\ ~MayHold(D, q, n)

(* insert the node n (or the children of the fragment n) at q *)
Insert1(D, pos, q, n) ==
  IF Refused(D, pos, q, n) THEN [d |-> D, e |-> 1]
  ELSE LET S  == IF IsRoot(D, n)
                 THEN SelectSeq(D[n].c, LAMBDA m : Sibling(pos) \/ MayHold(D, q, m))
                 ELSE << n >>
           D1 == DetachAll(D, S) IN
       Ok(CASE pos = "append"  -> PutAt(D1, q, Len(D1[q].c), S)
            [] pos = "prepend" -> PutAt(D1, q, 0, S)
            [] pos = "before"  -> PutAt(D1, D1[q].p, KidPos(D1, q) - 1, S)
            [] pos = "after"   -> PutAt(D1, D1[q].p, KidPos(D1, q), S))

(* all of ns at q: they end up in the order of ns *)
RECURSIVE InsertSeq(_, _, _, _)
InsertSeq(r, pos, q, ns) ==
  IF ns = << >> THEN r
  ELSE LET r1 == Insert1(r.d, pos, q, ns[1]) IN
       InsertSeq([d |-> r1.d, e |-> r.e + r1.e], pos, q, Tail(ns))
InsertAt(r, pos, q, ns) ==
  InsertSeq(r, pos, q, IF pos \in {"append", "before"} THEN ns ELSE Rev(ns))

(* with several targets the elements end up at the last one; the content of *)
(* a fragment is copied for all targets but the last                        *)
RECURSIVE CopyFrags(_, _, _)
CopyFrags(D, ns, out) ==
  IF ns = << >> THEN [d |-> D, ns |-> out]
  ELSE IF IsFragment(D, ns[1]) THEN CopyFrags(Copy(D, ns[1]), Tail(ns), Append(out, Len(D) + 1))
  ELSE CopyFrags(D, Tail(ns), Append(out, ns[1]))
RECURSIVE InsertAll(_, _, _, _)
InsertAll(r, pos, Q, ns) ==
  IF Q = << >> THEN r
  ELSE IF Len(Q) = 1 THEN InsertAt(r, pos, Q[1], ns)
  ELSE LET f == CopyFrags(r.d, ns, << >>) IN
       InsertAll(InsertAt([d |-> f.d, e |-> r.e], pos, Q[1], f.ns), pos, Tail(Q), ns)
Insert(D, pos, Q, ns) == InsertAll(Ok(D), pos, Q, ns)

(* ------------------------------ replacement ----------------------------- *)
Replace1(D, q, n) ==
  IF Refused(D, "replace", q, n) THEN [d |-> D, e |-> 1]
  ELSE LET S == IF IsRoot(D, n) THEN D[n].c ELSE << n >> IN
       IF S = << >> THEN Ok(D)
       ELSE LET D1 == DetachAll(D, S)
                p  == D1[q].p
                i  == KidPos(D1, q) IN
            Ok(PutAt(Detach(D1, q), p, i - 1, S))
ReplaceAt(r, q, ns) ==
  IF ns = << >> THEN r
  ELSE LET r1 == InsertSeq(r, "before", q, SubSeq(ns, 1, Len(ns) - 1))
           r2 == Replace1(r1.d, q, ns[Len(ns)]) IN
       [d |-> r2.d, e |-> r1.e + r2.e]
RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(r, Q, ns) ==
  IF Q = << >> THEN r
  ELSE IF Len(Q) = 1 THEN ReplaceAt(r, Q[1], ns)
  ELSE LET f == CopyFrags(r.d, ns, << >>) IN
       ReplaceAll(ReplaceAt([d |-> f.d, e |-> r.e], Q[1], f.ns), Tail(Q), ns)
Replace(D, Q, ns) == ReplaceAll(Ok(D), Q, ns)

(* -------------------------------- removal ------------------------------- *)
Remove(D, S) == DetachAll(D, S)

(* -------------------------------- content ------------------------------- *)
RECURSIVE EncodeFrom(_, _)
EncodeFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (CASE Ch(s, i) = "&" -> "&amp;" [] Ch(s, i) = "<" -> "&lt;" [] Ch(s, i) = ">" -> "&gt;"
          [] OTHER -> Ch(s, i)) \o EncodeFrom(s, i + 1)
Encode(s) == EncodeFrom(s, 1)
TextTerm(x) == [k |-> "text", t |-> "", a |-> << >>, x |-> x, c |-> << >>]

SetText1(D, n, s) ==
  CASE IsEl(D, n) /\ D[n].t \in RawTags  -> Ok([D EXCEPT ![n].x = s])
    [] IsEl(D, n) /\ D[n].t \in VoidTags -> [d |-> D, e |-> IF s = "" THEN 0 ELSE 1]
    [] IsEl(D, n) -> LET D1 == DetachAll(D, D[n].c) IN
                     Ok(IF s = "" THEN D1 ELSE AddTerms(D1, n, << TextTerm(Encode(s)) >>, 1))
    [] OTHER -> Ok(D)
RECURSIVE SetTextAll(_, _, _)
SetTextAll(r, S, s) ==
  IF S = << >> THEN r
  ELSE LET r1 == SetText1(r.d, S[1], s) IN SetTextAll([d |-> r1.d, e |-> r.e + r1.e], Tail(S), s)
SetText(D, S, s) == SetTextAll(Ok(D), S, s)

(* html is given twice: as source s and as the terms ts it denotes *)
SetHtml1(D, n, s, ts) ==
  CASE IsEl(D, n) /\ D[n].t \in RawTags -> [D EXCEPT ![n].x = s]
    [] IsEl(D, n) /\ D[n].t \in VoidTags -> D
    [] IsEl(D, n) -> AddTerms(DetachAll(D, D[n].c), n, ts, 1)
    [] OTHER -> D
RECURSIVE SetHtml(_, _, _, _)
SetHtml(D, S, s, ts) ==
  IF S = << >> THEN D ELSE SetHtml(SetHtml1(D, S[1], s, ts), Tail(S), s, ts)

(* a text node replaced by html: the nodes take its place *)
NodeSetHtml(D, n, s, ts) ==
  IF IsRaw(D, n) THEN SetHtml1(D, n, s, ts)
  ELSE IF D[n].p = 0 THEN D
  ELSE LET p == D[n].p  i == KidPos(D, n)
           D1 == Detach(D, n)
           N == Len(D1)
           D2 == AddTerms(D1, p, ts, 1)                  \* at the end of p ...
           new == SubSeq(D2[p].c, Len(D1[p].c) + 1, Len(D2[p].c))
           old == D1[p].c IN                             \* ... then in place of n
       [D2 EXCEPT ![p].c = SubSeq(old, 1, i - 1) \o new \o SubSeq(old, i, Len(old))]
NodeSetText(D, n, s) ==
  IF IsRaw(D, n) THEN Ok([D EXCEPT ![n].x = s])
  ELSE IF s = "" THEN [d |-> D, e |-> 1] ELSE Ok([D EXCEPT ![n].x = s])

(* ------------------------------- attributes ----------------------------- *)
SetAttr1(D, n, nm, h, v) ==
  IF ~IsEl(D, n) THEN D
  ELSE LET at == AttrAt(D, n, nm)  a == << nm, h, IF h = 1 THEN v ELSE "" >> IN
       IF at = {} THEN [D EXCEPT ![n].a = Append(@, a)]
       ELSE [D EXCEPT ![n].a = [i \in DOMAIN @ |-> IF i \in at THEN a ELSE @[i]]]
RECURSIVE SetAttr(_, _, _, _, _)
SetAttr(D, S, nm, h, v) ==
  IF S = << >> THEN D ELSE SetAttr(SetAttr1(D, S[1], nm, h, v), Tail(S), nm, h, v)
RemoveAttr(D, S, nm) ==
  [n \in Ids(D) |-> IF n \in Range(S) THEN [D[n] EXCEPT !.a = SelectSeq(@, LAMBDA b : b[1] # nm)] ELSE D[n]]

(* -------------------------------- classes ------------------------------- *)
ClassWords(D, n) == IF HasVal(D, n, "class") THEN Words(Val(D, n, "class")) ELSE << >>
ClassSet(D, n)   == Range(ClassWords(D, n))
NextClasses(op, old, arg) ==
  CASE op = "add_class"    -> old \cup arg
    [] op = "remove_class" -> old \ arg
    [] op = "toggle_class" -> (old \ arg) \cup (arg \ old)

(* ------------------------------ text nodes ------------------------------ *)
TextOp(D, n, e) ==
  CASE e.op = "t_set_text" -> NodeSetText(D, n, e.str)
    [] e.op = "t_append"   -> Ok([D EXCEPT ![n].x = @ \o e.str])
    [] e.op = "t_prepend"  -> Ok([D EXCEPT ![n].x = e.str \o @])
    [] e.op = "t_set_html" -> Ok(NodeSetHtml(D, n, e.str, e.ts))
    [] e.op = "t_remove"   -> Ok(Detach(D, n))
RECURSIVE TextOps(_, _, _)
TextOps(r, s, e) == IF s = << >> THEN r
                    ELSE LET x == TextOp(r.d, s[1], e) IN TextOps([d |-> x.d, e |-> r.e + x.e], Tail(s), e)

(* ------------------------- an operation by its name --------------------- *)
(* o is a record naming the operation and its arguments, as in a trace; the *)
(* class operations keep the old words first                                *)
SetClass1(D, n, op, arg) ==
  LET old  == ClassWords(D, n)
      new  == SelectSeq(Words(arg), LAMBDA w : w \notin Range(old))
      kept == SelectSeq(old, LAMBDA w : op = "add_class" \/ w \notin WordSet(arg)) IN
  IF ~IsEl(D, n) THEN D
  ELSE SetAttr1(D, n, "class", 1, Join(kept \o (IF op = "remove_class" THEN << >> ELSE new), " "))
RECURSIVE SetClass(_, _, _, _)
SetClass(D, S, op, arg) == IF S = << >> THEN D ELSE SetClass(SetClass1(D, S[1], op, arg), Tail(S), op, arg)
Do(D, o) ==
  CASE o.op = "insert"      -> Insert(D, o.pos, o.s, o.s2)
    [] o.op = "replace"     -> Replace(D, o.s, o.s2)
    [] o.op = "remove"      -> Ok(Remove(D, o.s))
    [] o.op = "empty"       -> SetText(D, o.s, "")
    [] o.op = "set_text"    -> SetText(D, o.s, o.str)
    [] o.op = "set_html"    -> Ok(SetHtml(D, o.s, o.str, o.ts))
    [] o.op = "set_attr"    -> Ok(SetAttr(D, o.s, Lower(o.nm), o.h, o.str))
    [] o.op = "remove_attr" -> Ok(RemoveAttr(D, o.s, Lower(o.nm)))
    [] o.op \in {"add_class", "remove_class", "toggle_class"} -> Ok(SetClass(D, o.s, o.op, o.str))
    [] o.op \in {"t_set_text", "t_append", "t_prepend", "t_set_html", "t_remove"} -> TextOps(Ok(D), o.s, o)
    [] o.op = "copy"        -> Ok(Copy(D, o.x))

(* ----------------------- equality of two stores ------------------------- *)
(* E: as specified, R: as observed; the first N nodes are known to both,    *)
(* the others are new and compared by their trees                           *)
BothQuotes(v) == HasSub(v, "'") /\ HasSub(v, "\"")
AttrEq(e, r) == /\ e[1] = r[1] /\ e[2] = r[2]
                /\ e[3] = r[3] \/ (BothQuotes(e[3]) /\ Decode(e[3]) = Decode(r[3]))
AttrsEq(ea, ra) == Len(ea) = Len(ra) /\ \A i \in DOMAIN ea : AttrEq(ea[i], ra[i])
RECURSIVE EqKids(_, _, _, _, _), EqNew(_, _, _, _, _)
EqKids(E, R, ec, rc, N) ==
  /\ Len(ec) = Len(rc)
  /\ \A i \in DOMAIN ec : IF ec[i] <= N THEN ec[i] = rc[i] ELSE rc[i] > N /\ EqNew(E, R, ec[i], rc[i], N)
EqNew(E, R, e, r, N) ==
  /\ E[e].k = R[r].k /\ E[e].t = R[r].t /\ AttrsEq(E[e].a, R[r].a)
  /\ E[e].x = R[r].x \/ (E[e].k = "text" /\ Decode(E[e].x) = Decode(R[r].x) /\ Escaped(R[r].x))
  /\ EqKids(E, R, E[e].c, R[r].c, N)
EqOld(E, R, n, N) ==
  /\ E[n].k = R[n].k /\ E[n].t = R[n].t /\ E[n].x = R[n].x
  /\ AttrsEq(E[n].a, R[n].a)
  /\ E[n].p = R[n].p \/ (E[n].p > N /\ R[n].p > N)
  /\ EqKids(E, R, E[n].c, R[n].c, N)
Differ(E, R, N) == { n \in 1..N : ~EqOld(E, R, n, N) }
SameStore(E, R, N) == Len(R) >= N /\ Differ(E, R, N) = {}
=============================================================================
