------------------------------- MODULE Sel -------------------------------
(* The meaning of selectors.                                                *)
(* A selector is a sequence of groups (the comma list); a group is a        *)
(* sequence of compounds [c |-> combinator, m |-> sequence of simples];     *)
(* the combinator relates a compound to the one on its left: " " ">" "+"    *)
(* "~".  A simple selector is a record with field s naming its sort.        *)
EXTENDS Dom, Integers

(* position p is one of a*k + b, k >= 0 *)
NthHas(a, b, p) ==
  IF a = 0 THEN p = b
  ELSE LET d == p - b IN
       IF a > 0 THEN d >= 0 /\ d % a = 0
       ELSE d <= 0 /\ (-d) % (-a) = 0

SameTag(D, n, s) == SelectSeq(s, LAMBDA m : D[m].t = D[n].t)

HeaderTags == {"h1", "h2", "h3", "h4", "h5", "h6"}
InputTags  == {"input", "select", "textarea", "button"}

(* ---- form state ---- *)
IsOption(D, n) == D[n].t = "option"
Selected(D, n) == IsOption(D, n) /\ HasAttr(D, n, "selected")
RECURSIVE OptsUnder(_, _)   \* the options under n, not looking into options
OptsUnder(D, n) == Flat([i \in DOMAIN D[n].c |->
    LET m == D[n].c[i] IN
    IF ~IsEl(D, m) THEN << >> ELSE IF IsOption(D, m) THEN << m >> ELSE OptsUnder(D, m)])
DefaultOption(D, n) ==
  /\ D[n].p # 0 /\ IsEl(D, D[n].p) /\ D[D[n].p].t = "select"
  /\ ~HasAttr(D, D[n].p, "multiple")
  /\ \A m \in Range(Before(D, n)) : ~IsOption(D, m)
  /\ \A m \in Range(OptsUnder(D, D[n].p)) : ~Selected(D, m)
Checked(D, n) ==
  \/ /\ D[n].t = "input" /\ Lower(ValOr(D, n, "type", "")) \in {"checkbox", "radio"}
     /\ HasAttr(D, n, "checked")
  \/ IsOption(D, n) /\ (Selected(D, n) \/ DefaultOption(D, n))

AttrTest(D, n, nm, o, v) ==
  LET has == HasVal(D, n, nm)  w == IF has THEN Val(D, n, nm) ELSE ""
      there == HasAttr(D, n, nm) IN   \* an attribute without a value has the empty one
  CASE o = ""   -> HasAttr(D, n, nm)
    [] o = "="  -> there /\ w = v
    [] o = "!=" -> ~(there /\ w = v)
    [] o = "^=" -> has /\ v # "" /\ StartsWith(w, v)
    [] o = "$=" -> has /\ v # "" /\ EndsWith(w, v)
    [] o = "*=" -> has /\ v # "" /\ HasSub(w, v)
    [] o = "~=" -> has /\ v # "" /\ v \in WordSet(w)
    [] o = "|=" -> there /\ (w = v \/ (has /\ StartsWith(w, v \o "-")))

RECURSIVE MSimple(_, _, _), MCompound(_, _, _), MComplex(_, _, _, _), MSel(_, _, _)
MSimple(D, n, s) ==
  CASE s.s = "any"   -> TRUE
    [] s.s = "tag"   -> D[n].t = Lower(s.v)
    [] s.s = "id"    -> HasVal(D, n, "id") /\ Val(D, n, "id") = s.v
    [] s.s = "class" -> HasVal(D, n, "class") /\ s.v \in WordSet(Val(D, n, "class"))
    [] s.s = "attr"  -> AttrTest(D, n, Lower(s.n), s.o, s.v)
    [] s.s = "nth-child"        -> D[n].p # 0 /\ NthHas(s.a, s.b, Len(Before(D, n)) + 1)
    [] s.s = "nth-last-child"   -> D[n].p # 0 /\ NthHas(s.a, s.b, Len(After(D, n)) + 1)
    [] s.s = "nth-of-type"      -> D[n].p # 0 /\ NthHas(s.a, s.b, Len(SameTag(D, n, Before(D, n))) + 1)
    [] s.s = "nth-last-of-type" -> D[n].p # 0 /\ NthHas(s.a, s.b, Len(SameTag(D, n, After(D, n))) + 1)
    [] s.s = "first-child"   -> D[n].p # 0 /\ Before(D, n) = << >>
    [] s.s = "last-child"    -> D[n].p # 0 /\ After(D, n) = << >>
    [] s.s = "only-child"    -> D[n].p # 0 /\ Before(D, n) = << >> /\ After(D, n) = << >>
    [] s.s = "first-of-type" -> D[n].p # 0 /\ SameTag(D, n, Before(D, n)) = << >>
    [] s.s = "last-of-type"  -> D[n].p # 0 /\ SameTag(D, n, After(D, n)) = << >>
    [] s.s = "only-of-type"  -> /\ D[n].p # 0
                                /\ SameTag(D, n, Before(D, n)) = << >>
                                /\ SameTag(D, n, After(D, n)) = << >>
    [] s.s = "empty"    -> \A m \in Range(D[n].c) : D[m].k = "comment"
    [] s.s = "root"     -> /\ D[n].t = "html" /\ D[n].p # 0 /\ IsRoot(D, D[n].p)
    [] s.s = "contains" -> HasSub(Text(D, n), s.v)
    [] s.s = "checked"  -> Checked(D, n)
    [] s.s = "header"   -> D[n].t \in HeaderTags
    [] s.s = "input"    -> D[n].t \in InputTags
    [] s.s = "submit"   -> D[n].t \in {"input", "button"} /\ HasVal(D, n, "type") /\ Val(D, n, "type") = "submit"
    [] s.s = "not"      -> ~MSel(D, n, s.g)
    [] s.s = "has"      -> \E m \in DescEl(D, n) : MSel(D, m, s.g)
MCompound(D, n, m) == \A i \in DOMAIN m : MSimple(D, n, m[i])
(* n matches the first i compounds of group g, the i-th at n itself; the    *)
(* left-most one may be anywhere in the tree                                *)
MComplex(D, n, g, i) ==
  /\ MCompound(D, n, g[i].m)
  /\ IF i = 1 THEN TRUE ELSE
     CASE g[i].c = " " -> \E m \in AncEl(D, n) : MComplex(D, m, g, i - 1)
       [] g[i].c = ">" -> \E m \in ParEl(D, n) : MComplex(D, m, g, i - 1)
       [] g[i].c = "+" -> LET b == Before(D, n) IN b # << >> /\ MComplex(D, b[Len(b)], g, i - 1)
       [] g[i].c = "~" -> \E m \in Range(Before(D, n)) : MComplex(D, m, g, i - 1)
(* n is an element that matches the selector, wherever it is in its tree *)
MSel(D, n, q) == IsEl(D, n) /\ \E i \in DOMAIN q : MComplex(D, n, q[i], Len(q[i]))
=============================================================================
