------------------------------ MODULE Trace ------------------------------
(* Validates a trace recorded from the real code against the specification. *)
(* Every event carries what was called, what came back (answers, reported   *)
(* errors, panics) and, whenever it differs from the one before, the whole  *)
(* observed store.  Each event is one step: the event is judged against the *)
(* store before it, a mismatch is printed, and the specification goes on    *)
(* from the observed store, so that the rest of the trace is judged too.    *)
EXTENDS Mut, Grammar, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, dom, sound

Has_(e, f) == f \in DOMAIN e
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
If(c, msg) == IF c THEN {} ELSE {msg}

(* -------------------------- shared judgements --------------------------- *)
IndexOk(D) == \A n \in Ids(D) : D[n].p # 0 => LET c == D[D[n].p].c IN D[n].i + 1 \in DOMAIN c /\ c[D[n].i + 1] = n
NoPanic(e) == If(e.pan = "", "panic: " \o e.pan)
Unchanged(D, R) == If(Len(D) = Len(R) /\ SameStore(D, R, Len(D)), "a query changed the tree")
NoError(e) == If(e.err = 0, "an error was reported")
(* no element twice, and those of each tree in its order: there is none between the nodes of two trees *)
InDocOrder(D, s) == LET of == [t \in { Top(D, n) : n \in Range(s) } |-> SelectSeq(s, LAMBDA n : Top(D, n) = t)] IN
                    IsUniq(s) /\ \A t \in DOMAIN of : of[t] = InOrder(D, Range(of[t]))
Counts(n) == [i \in 1..n |-> i - 1]
Min(a, b) == IF a < b THEN a ELSE b
LoadedTop(D, n) == IsRoot(D, Top(D, n))

(* serialised html read back: equal up to merged text and encoded raw text *)
RECURSIVE TermEq(_, _), TermsEq(_, _)
TermEq(a, b) == /\ a.k = b.k /\ a.t = b.t /\ AttrsEq(a.a, b.a)
                /\ \/ a.x = b.x
                   \/ a.k = "el" /\ a.t \in PlainTags /\ a.x = Decode(b.x)
                /\ TermsEq(a.c, b.c)
TermsEq(as, bs) == Len(as) = Len(bs) /\ \A i \in DOMAIN as : TermEq(as[i], bs[i])
(* the same tree to the letter (attributes aside that hold both kinds of quotes) *)
RECURSIVE TermIs(_, _)
TermIs(a, b) == /\ a.k = b.k /\ a.t = b.t /\ AttrsEq(a.a, b.a) /\ a.x = b.x
                /\ Len(a.c) = Len(b.c) /\ \A i \in DOMAIN a.c : TermIs(a.c[i], b.c[i])
TermsAre(as, bs) == Len(as) = Len(bs) /\ \A i \in DOMAIN as : TermIs(as[i], bs[i])
OuterEq(D, S, ts) == TermsEq(NormAll([i \in DOMAIN S |-> Term(D, S[i])]), NormAll(ts))
InnerOf(D, n) == IF IsRaw(D, n) THEN << TextTerm(D[n].x) >> ELSE Term(D, n).c
Plain(s) == ~HasSub(s, "<") /\ ~HasSub(s, "&") /\ ~HasSub(s, ">")
InnerKnown(D, n) == ~IsRaw(D, n) \/ Plain(D[n].x)
InnerEq(D, S, ts) == (\A i \in DOMAIN S : InnerKnown(D, S[i])) =>
                       TermsEq(NormAll(Flat([i \in DOMAIN S |-> InnerOf(D, S[i])])), NormAll(ts))
Heads(S) == IF S = << >> THEN << >> ELSE << S[1] >>

(* -------------------------------- queries ------------------------------- *)
Steps == [children |-> ">", prev |-> "prev", prev_all |-> "prevall", next |-> "+",
          next_all |-> "~", siblings |-> "sibs", parent |-> "parent", parents |-> "parents",
          prev_until |-> "prev", next_until |-> "+", parents_until |-> "parent"]
Walks  == {"children", "prev", "prev_all", "next", "next_all", "siblings", "parent", "parents"}
Untils == {"prev_until", "next_until", "parents_until"}

(* the answer of a set method with a selector: elements in document order, or the ones kept of the set as it is *)
Found(D, e) ==
  LET S == Range(e.s) IN
  CASE e.op = "find"    -> Find(D, S, e.q)
    [] e.op \in Walks   -> Walk(D, S, Steps[e.op], e.q)
    [] e.op \in Untils  -> Until(D, S, Steps[e.op], e.q, e.f, e.inc)
    [] e.op = "closest" -> Closest(D, S, e.q)
Kept(D, e) ==
  LET S == Range(e.s) IN
  CASE e.op = "filter"  -> Keep(e.s, Filter(D, S, e.q))
    [] e.op = "not"     -> Drop(e.s, Filter(D, S, e.q))
    [] e.op = "has"     -> Keep(e.s, Has(D, S, e.q))
Are(D, r, S) == IF \E x, y \in S : Top(D, x) # Top(D, y)
                THEN If(Range(r) = S /\ InDocOrder(D, r), "should be " \o ToString(S) \o " tree by tree")
                ELSE LET a == InOrder(D, S) IN If(r = a, "should be " \o ToString(a))
(* those that keep the set's own order *)
Keeps == {"filter", "not", "has", "filter_in", "not_in", "has_in", "eq", "get", "first", "last", "slice", "length", "filter_by", "not_by", "has_by"}
SetOps == {"find", "closest", "filter", "not", "has"} \cup Walks \cup Untils
JSet(D, e) ==
  (IF e.op \in {"filter", "not", "has"} THEN LET a == Kept(D, e) IN If(e.r = a, "should be " \o ToString(a))
   ELSE Are(D, e.r, Found(D, e)))
  \cup If(e.n = Len(e.r), "length") \cup NoError(e)

JIs(D, e) == LET m == Filter(D, Range(e.s), e.q) IN
  If(e.b = (IF e.op = "is" THEN m # {} ELSE e.s # << >> /\ m = Range(e.s)), "wrong answer") \cup NoError(e)

DescOf(D, n) == Range(Pre(D, n)) \ {n}
JIn(D, e) == LET T == Range(e.s2) S == Range(e.s) IN
  CASE e.op = "filter_in" -> If(e.r = Keep(e.s, T), "should be " \o ToString(Keep(e.s, T)))
    [] e.op = "not_in"    -> If(e.r = Drop(e.s, T), "should be " \o ToString(Drop(e.s, T)))
    [] e.op = "has_in"    -> LET a == Keep(e.s, { n \in S : DescOf(D, n) \cap T # {} }) IN
                             If(e.r = a, "should be " \o ToString(a))
    [] e.op = "is_in"     -> If(e.b = (S \cap T # {}), "wrong answer")
    [] e.op = "is_all_in" -> If(e.b = (S \subseteq T), "wrong answer")

JIndex(D, e) ==
  LET a == CASE e.op = "eq" -> EqAt(e.s, e.a) [] e.op = "get" -> EqAt(e.s, e.a)
             [] e.op = "first" -> EqAt(e.s, 0)
             [] e.op = "last" -> IF e.s = << >> THEN << >> ELSE << e.s[Len(e.s)] >>
             [] e.op = "slice" -> Slice(e.s, e.a, e.b2)
             [] e.op = "length" -> e.s IN
  If(e.r = a, "should be " \o ToString(a)) \cup If(e.n = Len(e.s), "length") \cup If(e.b = (e.s = << >>), "is_empty")

JContains(D, e) ==
  If(e.b = (e.x \in (IF e.c = "" THEN Range(e.s) ELSE Step(D, Range(e.s), e.c))), "wrong answer")

JBy(D, e) ==
  LET T == Range(e.s2)
      all == e.seen = e.s
      pre == Len(e.seen) <= Len(e.s) /\ e.seen = SubSeq(e.s, 1, Len(e.seen)) IN
  If(e.at = Counts(Len(e.seen)), "wrong indexes given to the function") \cup
  CASE e.op = "filter_by" -> If(all, "not every element seen") \cup If(e.r = Keep(e.s, T), "wrong answer")
    [] e.op = "not_by"    -> If(all, "not every element seen") \cup If(e.r = Drop(e.s, T), "wrong answer")
    [] e.op = "is_by"     -> If(pre, "wrong elements seen") \cup If(e.b = (T # {}), "wrong answer")
    [] e.op = "is_all_by" -> If(pre, "wrong elements seen") \cup If(e.b = (T = Range(e.s)), "wrong answer")

JIter(D, e) ==
  LET want == IF e.op \in {"for_each", "each"} THEN SubSeq(e.s, 1, Min(e.a + 1, Len(e.s))) ELSE e.s IN
  If(e.seen = want, "should visit " \o ToString(want)) \cup If(e.at = Counts(Len(e.seen)), "wrong indexes")
  \cup (IF e.op \in {"for_each", "each"} THEN If(e.r = e.s, "the set changed") ELSE {})

(* -------------------------------- reading ------------------------------- *)
RECURSIVE Source(_, _)                    \* the text as it is written
Source(D, n) == IF IsText(D, n) \/ IsRaw(D, n) THEN D[n].x
                ELSE Concat([i \in DOMAIN D[n].c |-> IF D[D[n].c[i]].k \in {"el", "text"} THEN Source(D, D[n].c[i]) ELSE ""])
JText(D, e) == LET ts == [i \in DOMAIN e.s |-> Text(D, e.s[i])] IN
  If(e.each = ts, "should be " \o ToString(ts))
  \cup If(e.src = [i \in DOMAIN e.s |-> Source(D, e.s[i])], "text_chars") \cup If(e.t = Concat(e.each), "not the concatenation")
JHtml(D, e) ==
  CASE e.op = "html"        -> If(InnerEq(D, Heads(e.s), e.ts), "inner html")
    [] e.op = "htmls"       -> If(InnerEq(D, e.s, e.ts), "inner htmls")
    [] e.op = "outer_html"  -> If(OuterEq(D, Heads(e.s), e.ts), "outer html")
    [] e.op = "outer_htmls" -> If(OuterEq(D, e.s, e.ts), "outer htmls")
AttrAns(D, n, nm) == IF ~HasAttr(D, n, nm) THEN << >>
                     ELSE IF HasVal(D, n, nm) THEN << 1, Val(D, n, nm) >> ELSE << 0, "" >>
JAttr(D, e) ==
  LET nm == Lower(e.nm) IN
  CASE e.op = "attr" ->
         LET a == IF e.s = << >> THEN << >> ELSE AttrAns(D, e.s[1], nm) IN
         If(e.v = a, "should be " \o ToString(a)) \cup
         (IF e.v = << >> THEN {} ELSE
            If(e.t = e.v[2], "to_string") \cup If(e.b = (e.v[1] = 0), "is_true")
            \cup If(e.ws = Words(e.v[2]), "to_list") \cup If(e.eq, "is_str"))
    [] e.op = "has_attr" -> If(e.b = (\E i \in DOMAIN e.s : HasAttr(D, e.s[i], nm)), "wrong answer")
    [] e.op = "get_attributes" -> If(e.v = (IF e.s = << >> THEN << >> ELSE D[e.s[1]].a), "wrong attributes")
    [] e.op = "has_class" ->
         LET w == WordSet(e.nm) IN
         If(e.b = (w # {} /\ \E i \in DOMAIN e.s : HasVal(D, e.s[i], "class") /\ w \subseteq WordSet(Val(D, e.s[i], "class"))),
            "wrong answer")
JVal(D, e) ==
  LET vs == [i \in DOMAIN e.s |-> FormValue(D, e.s[i])] IN
  If(e.each = vs, "should be " \o ToString(vs))
  \cup If(e.v = (IF e.s = << >> THEN << "one", "" >> ELSE vs[1]), "val")
  \cup If(e.t = Join(Tail(e.v), ","), "to_string") \cup If(e.v[1] = "many" => e.it = Tail(e.v), "into_iter")

(* the text nodes under n with their depths, down to depth lim (0: all),    *)
(* not entering elements named stop                                         *)
RECURSIVE DeepTexts(_, _, _, _, _)
DeepTexts(D, n, d, lim, stop) ==
  IF D[n].c = << >> THEN IF IsRaw(D, n) THEN << << d, n >> >> ELSE << >>
  ELSE Flat([i \in DOMAIN D[n].c |->
         LET m == D[n].c[i] IN
         CASE IsText(D, m) -> << << d, m >> >>
           [] IsRaw(D, m) -> << << d, m >> >>
           [] IsEl(D, m) /\ ~IsRaw(D, m) /\ (lim = 0 \/ d + 1 < lim) /\ D[m].t # stop -> DeepTexts(D, m, d + 1, lim, stop)
           [] OTHER -> << >>])
JTexts(D, e) ==
  LET dt == Flat([i \in DOMAIN e.s |-> DeepTexts(D, e.s[i], 0, e.a, IF e.op = "texts_by_rec" THEN e.nm ELSE "")])
      all == [i \in DOMAIN dt |-> dt[i][2]]
      want == IF e.op = "texts" THEN all ELSE SelectSeq(all, LAMBDA n : ~IsBlank(Text(D, n))) IN
  If(e.r = want, "should be " \o ToString(want))
  \cup If(e.n = Len(e.r) /\ e.b = (e.r = << >>), "length")
  \cup If(e.tx = [i \in DOMAIN e.r |-> Text(D, e.r[i])], "texts")
  \cup (IF e.op = "texts" THEN {} ELSE
        If(e.seen = all, "not every text seen") \cup If(e.at = [i \in DOMAIN dt |-> dt[i][1]], "depths"))

JTx(D, e) ==
  LET dt == Flat([i \in DOMAIN e.s |-> DeepTexts(D, e.s[i], 0, 0, "")])
      all == [i \in DOMAIN dt |-> dt[i][2]]
      stops == e.op \in {"tx_for_each", "tx_each"}
      want == IF stops THEN SubSeq(all, 1, Min(e.a + 1, Len(all))) ELSE all IN
  If(e.seen = want, "should visit " \o ToString(want)) \cup If(e.at = Counts(Len(e.seen)), "wrong indexes")
  \cup (IF stops THEN If(e.r = all, "the set changed") ELSE {})
  \cup (IF e.op = "tx_filter_by"
        THEN If(e.r = Flat([i \in DOMAIN all |-> IF (i - 1) % 2 = e.a % 2 THEN << all[i] >> ELSE << >>]), "wrong texts kept") ELSE {})

JDoc(D, e) ==
  LET one(s) == IF s = << >> THEN << >> ELSE << s[1] >>
      root == e.x IN
  If(e.miss = 0, "no document") \cup
  (IF e.miss # 0 THEN {} ELSE
  CASE e.op = "title" ->
         LET h == FirstTag(D, root, "head")
             t == IF h = << >> THEN << >> ELSE SelectSeq(FirstTag(D, h[1], "title"), LAMBDA n : n # h[1]) IN
         If(e.v = (IF t = << >> THEN << >> ELSE << Concat([i \in DOMAIN t |-> Text(D, t[i])]) >>), "title")
    [] e.op = "head" -> If(e.r = one(FirstTag(D, root, "head")), "head")
    [] e.op = "body" -> If(e.r = one(FirstTag(D, root, "body")), "body")
    [] e.op = "document_element" -> If(e.r = one(FirstTag(D, root, "html")), "document element")
    [] e.op = "get_element_by_id" -> If(e.r = one(ById(D, root, e.nm)), "should be " \o ToString(one(ById(D, root, e.nm))))
    [] e.op \in {"get_root_node", "root_element", "owner_document"} -> If(e.r = << root >>, "root")
    [] e.op = "source_code" -> If(TermsEq(NormAll(Term(D, root).c), NormAll(e.ts)), "source code"))

UpperOf(c) == IF \E i \in 1..26 : Ch(LowerS, i) = c THEN Ch(UpperS, CHOOSE i \in 1..26 : Ch(LowerS, i) = c) ELSE c
Upper(s) == Concat([i \in 1..Len(s) |-> UpperOf(Ch(s, i))])
JElement(D, e) ==
  LET x == e.x
      ans(s) == If(e.r = s, "should be " \o ToString(s)) IN
  CASE e.op = "e_next" -> ans(IF After(D, x) = << >> THEN << >> ELSE << After(D, x)[1] >>)
    [] e.op = "e_prev" -> ans(LET b == Before(D, x) IN IF b = << >> THEN << >> ELSE << b[Len(b)] >>)
    [] e.op = "e_nexts" -> ans(After(D, x))
    [] e.op = "e_prevs" -> ans(Before(D, x))
    [] e.op = "e_siblings" -> ans(Before(D, x) \o After(D, x))
    [] e.op = "e_children" -> ans(ElKids(D, x))
    [] e.op = "e_children_by" -> ans(ElKids(D, x))
    [] e.op = "e_since" ->
         LET c == D[x].c
             els == SelectSeq(IF e.inc THEN Rev(SubSeq(c, 1, e.a + 1)) ELSE SubSeq(c, e.a + 1, Len(c)), LAMBDA m : IsEl(D, m)) IN
         ans(SubSeq(els, 1, Min(e.ra, Len(els))))
    [] e.op = "e_child_nodes" -> ans(D[x].c) \cup If(e.n = Len(D[x].c), "length")
    [] e.op = "e_child_item" -> ans(IF e.a < Len(D[x].c) THEN << D[x].c[e.a + 1] >> ELSE << >>)
    [] e.op = "e_parent" -> ans(IF D[x].p = 0 THEN << >> ELSE << D[x].p >>)
    [] e.op = "e_index" -> If(D[x].p = 0 \/ e.n = KidPos(D, x) - 1, "index")
    [] e.op = "e_tag_name" -> If(e.t = Upper(D[x].t), "tag name")
    [] e.op = "e_is" -> If(e.b = (x = e.y), "is") \cup If(~e.b2, "is_root_element")
    [] e.op = "e_has_attr" -> If(e.b = HasAttr(D, x, Lower(e.nm)), "has_attribute")
                              \cup If(e.v = AttrAns(D, x, Lower(e.nm)), "get_attribute")
    [] e.op = "e_text" -> If(e.t = Text(D, x) /\ e.t2 = e.t, "text")
    [] e.op = "e_type" -> If(e.v = [i \in DOMAIN D[x].c |-> LET k == D[D[x].c[i]].k
                                         y == IF k \in {"el", "text"} THEN k ELSE "comment" IN
                                     << k, y, y >>], "node types")

(* ------------------------- any string as a selector --------------------- *)
(* e.bad: "yes" if it is known to be no selector, "maybe" if nothing is     *)
(* known, "spec" if the grammar is to say                                   *)
Reachable(D, e) == e.s # << >> /\ LoadedTop(D, e.s[1])
Shape(D, e, bad) ==
  If(IsUniq(e.r), "repeated elements")
  \cup If(\A i \in DOMAIN e.r : e.r[i] \in Ids(D) /\ (IsEl(D, e.r[i]) \/ e.r[i] \in Range(e.s)), "not elements")
  \cup (IF ~bad THEN {}
        ELSE If(e.r = << >> /\ ~e.b, "an invalid selector selects something")
             \cup If(Reachable(D, e) => e.err >= 1, "no error reported"))
JBad(D, e) == Shape(D, e, e.bad = "yes" \/ (e.bad = "spec" /\ Parse(e.str).st = "bad"))
(* whether a document itself is selected is left open, and so is a combinator in front where there is nothing *)
(* for it to start from                                                                                      *)
Says(D, e, p) == /\ p.st = "ok"
                 /\ HasLead(p.q) => e.op = "find"
                 /\ e.op \notin {"find", "children"} => \A i \in DOMAIN e.s : IsEl(D, e.s[i])
JGram(D, e) == LET p == Parse(e.str)
                   x == [q |-> p.q, f |-> << >>, inc |-> FALSE] @@ e IN
  Shape(D, e, p.st = "bad")
  \cup (IF ~Says(D, e, p) THEN {} ELSE IF e.op \in {"is", "is_all"} THEN JIs(D, x) ELSE JSet(D, x))

(* ------------------------------- mutations ------------------------------ *)
Store(E, R, N) == If(SameStore(E, R, N),
  "wrong tree at nodes " \o ToString(IF Len(R) < N THEN {0} ELSE Differ(E, R, N)))
(* a refusal is reported to the handler of the document the target is in: not when it is in none, *)
(* or when an earlier target of the same call may have taken it out of it                         *)
Apart(D, s) == \A i, j \in DOMAIN s : s[i] \notin Anc(D, s[j])
ErrsAs(D, e, x) == IF x > 0 /\ (\A i \in DOMAIN e.s : LoadedTop(D, e.s[i])) /\ Apart(D, e.s) THEN If(e.err >= 1, "refused without an error")
                   ELSE IF x = 0 THEN NoError(e) ELSE {}
JInsert(D, e, R) == LET x == Insert(D, e.pos, e.s, e.s2) IN Store(x.d, R, Len(D)) \cup ErrsAs(D, e, x.e)
JReplace(D, e, R) == LET x == Replace(D, e.s, e.s2) IN Store(x.d, R, Len(D)) \cup ErrsAs(D, e, x.e)
OutersOk(R, e) == If(\A i \in DOMAIN e.s : OuterEq(R, << e.s[i] >>, e.hs[i]), "html of the changed element")
JSetText(D, e, R) ==
  LET x == SetText(D, e.s, IF e.op = "empty" THEN "" ELSE e.str) IN
  Store(x.d, R, Len(D)) \cup ErrsAs(D, e, x.e) \cup
  (IF e.op = "empty" THEN {} ELSE
     If(\A i \in DOMAIN e.s : e.each[i] = (IF D[e.s[i]].t \in VoidTags THEN "" ELSE e.str), "text read back")
     \cup OutersOk(R, e))
(* html that is not well formed: reported and refused, or read as the parser reads it, which is as lenient as it can be; *)
(* nothing but the content of the targets changes                                                                        *)
JSetHtmlSoup(D, e, R) ==
  LET under == UNION { Desc(D, e.s[i]) : i \in DOMAIN e.s } IN
  If(Len(R) >= Len(D) /\ WellFormed(R) /\ IndexOk(R), "ill-formed tree") \cup
  (IF Len(R) < Len(D) THEN {} ELSE
   If(\A n \in Ids(D) \ (under \cup Range(e.s)) : R[n] = D[n], "a node elsewhere changed")
   \cup If(\A i \in DOMAIN e.s : LET n == e.s[i] IN n \notin under => R[n].p = D[n].p /\ R[n].a = D[n].a /\ R[n].t = D[n].t /\ R[n].i = D[n].i,
           "more than the content of the element changed")
   \cup (IF e.no THEN If(SameStore(D, R, Len(D)), "refused, and a change") \cup ErrsAs(D, e, 1)
         ELSE Store(SetHtml(D, e.s, e.str, e.ts), R, Len(D)) \cup NoError(e)))
JSetHtml(D, e, R) == IF Get(e, "soup", FALSE) THEN JSetHtmlSoup(D, e, R) ELSE
  Store(SetHtml(D, e.s, e.str, e.ts), R, Len(D)) \cup NoError(e) \cup OutersOk(R, e)
JSetAttr(D, e, R) ==
  Store(SetAttr(D, e.s, Lower(e.nm), e.h, e.str), R, Len(D)) \cup NoError(e) \cup OutersOk(R, e)
  \cup If(\A i \in DOMAIN e.s : e.vs[i] = AttrAns(R, e.s[i], Lower(e.nm)), "attribute read back")
JRemoveAttr(D, e, R) == Store(RemoveAttr(D, e.s, Lower(e.nm)), R, Len(D)) \cup NoError(e) \cup OutersOk(R, e)
NotClass(a) == SelectSeq(a, LAMBDA b : b[1] # "class")
JClass(D, e, R) ==
  LET arg == WordSet(e.str)
      want(n) == NextClasses(e.op, ClassSet(D, n), arg)
      E == [n \in Ids(D) |-> IF n \in Range(e.s) THEN [D[n] EXCEPT !.a = NotClass(@)] ELSE D[n]]
      Q == [n \in Ids(R) |-> IF n \in Range(e.s) THEN [R[n] EXCEPT !.a = NotClass(@)] ELSE R[n]] IN
  Store(E, Q, Len(D)) \cup NoError(e)
  \cup If(Len(R) = Len(D) /\ \A i \in DOMAIN e.s : ClassSet(R, e.s[i]) = want(e.s[i]), "wrong classes")
  \cup If(\A i \in DOMAIN e.s : Range(e.has[i]) = Range(e.probes) \cap want(e.s[i]), "has_class")

JTextOp(D, e, R) == LET x == TextOps(Ok(D), e.s, e) IN Store(x.d, R, Len(D)) \cup ErrsAs(D, e, x.e)

(* a copy: new nodes only, the same tree, nothing else touched *)
JCopy(D, e, R) ==
  Store(D, R, Len(D)) \cup NoError(e)
  \cup If(~e.b /\ e.r[1] > Len(D), "not a new node")
  \cup (IF e.r[1] <= Len(D) THEN {} ELSE
        If(R[e.r[1]].p = 0 /\ \A m \in Range(Pre(R, e.r[1])) : m > Len(D), "shares nodes with the original")
        \cup If(TermIs(Term(R, e.r[1]), Term(D, e.x)), "not the same tree"))

JLoad(D, e, R) ==
  (IF e.soup /\ e.no THEN If(e.root = 0 /\ e.err >= 1, "not html, and no error reported")
   ELSE If(e.root # 0, "not loaded") \cup NoError(e)) \cup
  (IF e.root = 0 THEN {} ELSE
   If(WellFormed(R) /\ IndexOk(R), "ill-formed tree")
   \cup If(TermsAre(NormAll(e.ts), NormAll(Term(R, e.root).c)), "not the tree of the source")
   \cup If(e.fresh \/ SameStore(D, R, Len(D)), "another tree changed"))

(* ------------------------------ the verdict ----------------------------- *)
Mutators == {"insert", "replace", "remove", "empty", "set_text", "set_html", "set_attr", "remove_attr",
             "add_class", "remove_class", "toggle_class", "t_set_text", "t_append", "t_prepend",
             "t_set_html", "t_remove", "copy", "load", "e_remove_child"}
Full(D, e, R) ==
  CASE Has_(e, "bad") -> IF e.bad = "spec" THEN JGram(D, e) ELSE JBad(D, e)
    [] e.op \in SetOps -> JSet(D, e)
    [] e.op \in {"is", "is_all"} -> JIs(D, e)
    [] e.op \in {"filter_in", "not_in", "has_in", "is_in", "is_all_in"} -> JIn(D, e)
    [] e.op = "add" -> IF e.r = e.s \o e.s2 /\ << >> \in {e.s, e.s2} THEN {} ELSE Are(D, e.r, Range(e.s) \cup Range(e.s2))
    [] e.op \in {"eq", "get", "first", "last", "slice", "length"} -> JIndex(D, e)
    [] e.op = "contains" -> JContains(D, e)
    [] e.op \in {"filter_by", "not_by", "is_by", "is_all_by"} -> JBy(D, e)
    [] e.op \in {"for_each", "each", "map", "into_iter", "get_ref"} -> JIter(D, e)
    [] e.op = "text" -> JText(D, e)
    [] e.op \in {"html", "htmls", "outer_html", "outer_htmls"} -> JHtml(D, e)
    [] e.op \in {"attr", "has_attr", "get_attributes", "has_class"} -> JAttr(D, e)
    [] e.op = "val" -> JVal(D, e)
    [] e.op \in {"texts", "texts_by", "texts_by_rec"} -> JTexts(D, e)
    [] e.op \in {"tx_for_each", "tx_each", "tx_into_iter", "tx_filter_by", "tx_get_ref"} -> JTx(D, e)
    [] e.op \in {"title", "head", "body", "document_element", "get_element_by_id", "get_root_node",
                 "root_element", "owner_document", "source_code"} -> JDoc(D, e)
    [] e.op \in {"e_next", "e_prev", "e_nexts", "e_prevs", "e_siblings", "e_children", "e_child_nodes",
                 "e_child_item", "e_parent", "e_index", "e_tag_name", "e_is", "e_has_attr", "e_text", "e_type",
                 "e_children_by", "e_since"} -> JElement(D, e)
    [] e.op = "insert" -> JInsert(D, e, R)
    [] e.op = "replace" -> JReplace(D, e, R)
    [] e.op = "remove" -> Store(Remove(D, e.s), R, Len(D)) \cup NoError(e)
    [] e.op = "e_remove_child" -> Store(IF D[e.y].p = e.x THEN Remove(D, << e.y >>) ELSE D, R, Len(D)) \cup NoError(e)
    [] e.op \in {"empty", "set_text"} -> JSetText(D, e, R)
    [] e.op = "set_html" -> JSetHtml(D, e, R)
    [] e.op = "set_attr" -> JSetAttr(D, e, R)
    [] e.op = "remove_attr" -> JRemoveAttr(D, e, R)
    [] e.op \in {"add_class", "remove_class", "toggle_class"} -> JClass(D, e, R)
    [] e.op \in {"t_set_text", "t_append", "t_prepend", "t_set_html", "t_remove"} -> JTextOp(D, e, R)
    [] e.op = "copy" -> JCopy(D, e, R)
    [] e.op = "load" -> JLoad(D, e, R)

Again(e) == IF ~Has_(e, "again") THEN {}
            ELSE LET p == Events[l - e.again] IN
                 If(\A x \in DOMAIN e \ {"again", "d"} : x \in DOMAIN p /\ p[x] = e[x], "another answer the second time")

Judge(D, e, R) ==
  CASE e.j = "any" -> {}
    [] e.pan # "" -> NoPanic(e)
    [] e.j = "wf" -> If(WellFormed(R), "ill-formed tree") \cup (IF WellFormed(R) THEN If(IndexOk(R), "wrong positions") ELSE {})
    [] OTHER ->
         (IF e.op \in Mutators THEN {} ELSE Unchanged(D, R)) \cup
         CASE e.j = "full"  -> Full(D, e, R) \cup (IF e.op \in Mutators \ {"load"} /\ Has_(e, "d") THEN If(WellFormed(R) /\ IndexOk(D) => IndexOk(R), "wrong positions") ELSE {})
           [] e.j = "safe"  -> IF Has_(e, "bad") THEN JBad(D, e) ELSE {}
           [] e.j = "pure"  -> Again(e)
           [] e.j = "order" -> IF Has_(e, "r")
                               THEN If(InDocOrder(D, e.r) \/ (e.op \in Keeps /\ ~InDocOrder(D, e.s) /\ e.r = Keep(e.s, Range(e.r)))
                                       \/ (e.op = "add" /\ << >> \in {e.s, e.s2} /\ e.r = e.s \o e.s2), "not in document order, or repeated") ELSE {}

Init == l = 1 /\ dom = << >> /\ sound = TRUE
Next ==
  /\ l <= Len(Events)
  /\ LET e == Events[l]
         D == IF e.op = "load" /\ e.fresh THEN << >> ELSE dom
         R == Get(e, "d", D)
         ok == sound \/ (e.op = "load" /\ e.fresh)
         bad == IF ok THEN Judge(D, e, R) ELSE {} IN
     /\ IF bad = {} THEN TRUE ELSE PrintT(<< "MISMATCH", l, bad >>)
     /\ dom' = R
     /\ sound' = IF Has_(e, "d") THEN WellFormed(R) ELSE ok
  /\ l' = l + 1
Spec == Init /\ [][Next]_<< l, dom, sound >>

Consumed == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
