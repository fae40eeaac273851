------------------------------- MODULE Laws -------------------------------
(* What must be true of the specification itself: the listed properties,    *)
(* stated as laws over a store D and, for changes, over a step D -> E by an *)
(* operation o.  Visdom.tla checks them on every reachable store.           *)
EXTENDS Mut

Els(D) == { n \in Ids(D) : IsEl(D, n) }
Live(D) == { n \in Els(D) : IsRoot(D, Top(D, n)) }
Simp(m) == << << [c |-> " ", m |-> << m >>] >> >>
NotS(q) == Simp([s |-> "not", g |-> q])
HasS(q) == Simp([s |-> "has", g |-> q])
Matches(D, q) == { n \in Els(D) : MSel(D, n, q) }
Headless(q) == \A i \in DOMAIN q : q[i][1].c = " "

(* C01: looking for a selector from the top by following its parts forward  *)
(* finds exactly the elements that match it backwards                       *)
ForwardIsBackward(D, q) ==
  Headless(q) => \A r \in Tops(D) :
    LET all == { n \in DescEl(D, r) : MSel(D, n, q) } IN
    IF IsRoot(D, r) THEN Find(D, {r}, q) = all ELSE Find(D, {r}, q) \subseteq all
(* a comma is a union; more starting points find more *)
CommaIsUnion(D, q) == \A r \in Tops(D) : Find(D, {r}, q) = UNION { Find(D, {r}, << q[i] >>) : i \in DOMAIN q }
FindIsMonotone(D, q) == \A r \in Tops(D) : \A n \in DescEl(D, r) : Headless(q) => Find(D, {n}, q) \subseteq Find(D, {r}, q)
(* C02 *)
OrderOk(D, S) == LET s == InOrder(D, S) IN
                 /\ Range(s) = S /\ IsUniq(s)
                 /\ \A i, j \in DOMAIN s : s[i] \in Anc(D, s[j]) => i < j
(* C03 *)
NthLaws(D) ==
  LET M(x) == Matches(D, Simp(x))
      N(k, a, b) == M([s |-> k, a |-> a, b |-> b])
      F(k) == M([s |-> k]) IN
  /\ F("first-child") = N("nth-child", 0, 1) /\ F("last-child") = N("nth-last-child", 0, 1)
  /\ F("only-child") = F("first-child") \cap F("last-child")
  /\ F("first-of-type") = N("nth-of-type", 0, 1) /\ F("last-of-type") = N("nth-last-of-type", 0, 1)
  /\ F("only-of-type") = F("first-of-type") \cap F("last-of-type")
  /\ F("first-child") \subseteq F("first-of-type")
  /\ N("nth-child", 2, 0) \cap N("nth-child", 2, 1) = {}
  /\ N("nth-child", 2, 0) \cup N("nth-child", 2, 1) = N("nth-child", 1, 0)
  /\ N("nth-child", 1, 0) = { n \in Els(D) : D[n].p # 0 }
  /\ \A b \in 1..3 : N("nth-child", -1, b) = UNION { N("nth-child", 0, i) : i \in 1..b }
(* C04 *)
AttrLaws(D, nm, v) ==
  LET M(o) == Matches(D, Simp([s |-> "attr", n |-> nm, o |-> o, v |-> v])) IN
  /\ M("!=") = Els(D) \ M("=")
  /\ M("^=") \cup M("$=") \cup M("~=") \subseteq M("*=")
  /\ v # "" => M("=") \subseteq M("^=") \cap M("$=") \cap M("|=") /\ M("*=") \subseteq M("")
  /\ (v # "" /\ Words(v) = << v >>) => M("=") \subseteq M("~=")
  /\ nm = "class" => Matches(D, Simp([s |-> "class", v |-> v])) = (IF v = "" THEN {} ELSE { n \in M("~=") : TRUE })
  /\ (nm = "id" /\ v # "") => Matches(D, Simp([s |-> "id", v |-> v])) = M("=")
(* C05 *)
ContentLaws(D, q) ==
  /\ Matches(D, NotS(q)) = Els(D) \ Matches(D, q)
  /\ Matches(D, NotS(NotS(q))) = Matches(D, q)
  /\ Matches(D, HasS(q)) = { n \in Els(D) : DescEl(D, n) \cap Matches(D, q) # {} }
  /\ Matches(D, Simp([s |-> "empty"])) \cap Matches(D, HasS(Simp([s |-> "any"]))) = {}
ContainsUp(D, v) == LET m == Matches(D, Simp([s |-> "contains", v |-> v])) IN
                    \A n \in m : ParEl(D, n) \subseteq m
(* C06 *)
FilterLaws(D, S, q) ==
  /\ Filter(D, S, q) \cup Filter(D, S, NotS(q)) = S
  /\ Filter(D, S, q) \cap Filter(D, S, NotS(q)) = {}
  /\ Has(D, S, q) = Filter(D, S, HasS(q))
  /\ \A n \in S : LET c == Closest(D, {n}, q) IN
        /\ Cardinality(c) <= 1 /\ c \subseteq Matches(D, q) \cap ({n} \cup AncEl(D, n))
        /\ (c = {}) = (({n} \cup AncEl(D, n)) \cap Matches(D, q) = {})
        /\ \A m \in c : \A k \in ({n} \cup AncEl(D, n)) \cap Matches(D, q) : k = m \/ k \in Anc(D, m)
(* C07 *)
WalkLaws(D) ==
  \A n \in Els(D) :
    LET S(c) == Step(D, {n}, c) IN
    /\ S("sibs") = S("prevall") \cup S("~") /\ S("prevall") \cap S("~") = {} /\ n \notin S("sibs")
    /\ S("+") \subseteq S("~") /\ S("prev") \subseteq S("prevall")
    /\ \A m \in S("+") : Step(D, {m}, "prev") = {n}
    /\ \A m \in S("prev") : Step(D, {m}, "+") = {n}
    /\ \A m \in S(">") : Step(D, {m}, "parent") = {n}
    /\ S("parents") = UNION { {m} \cup Step(D, {m}, "parents") : m \in S("parent") }
    /\ S(" ") = UNION { {m} \cup Step(D, {m}, " ") : m \in S(">") }
    /\ \A m \in S(" ") : n \in Step(D, {m}, "parents")
UntilLaws(D, q) ==
  \A n \in Els(D) :
    /\ Until(D, {n}, "+", q, << >>, FALSE) \subseteq Step(D, {n}, "~") \ Matches(D, q)
    /\ Until(D, {n}, "+", NotS(Simp([s |-> "any"])), << >>, FALSE) = Step(D, {n}, "~")
    /\ Until(D, {n}, "parent", NotS(Simp([s |-> "any"])), << >>, FALSE) = Step(D, {n}, "parents")
    /\ Cardinality(Until(D, {n}, "prev", q, << >>, TRUE) \ Until(D, {n}, "prev", q, << >>, FALSE)) <= 1

(* ---------------------------------- steps ------------------------------- *)
Shape(D, n) == [t |-> D[n].t, k |-> D[n].k, a |-> D[n].a, x |-> D[n].x]
SameBut(D, E, S) == \A n \in Ids(D) \ S : D[n] = E[n]
SubOf(D, n) == Range(Pre(D, n))
Apart1(D, n, s) == \A i \in DOMAIN s : s[i] = n \/ (n \notin Anc(D, s[i]) /\ s[i] \notin Anc(D, n))
(* nothing is lost or made: every node is still there, with its content *)
Conserved(D, E) == Len(E) >= Len(D) /\ \A n \in Ids(D) : Shape(D, n) = Shape(E, n)
(* C10: where the node goes, for one target and one node *)
PlacedOk(E, pos, q, n) ==
  CASE pos = "append"  -> E[n].p = q /\ E[q].c[Len(E[q].c)] = n
    [] pos = "prepend" -> E[n].p = q /\ E[q].c[1] = n
    [] pos = "before"  -> E[n].p = E[q].p /\ KidPos(E, n) + 1 = KidPos(E, q)
    [] pos = "after"   -> E[n].p = E[q].p /\ KidPos(E, n) = KidPos(E, q) + 1
Without(s, S) == SelectSeq(s, LAMBDA n : n \notin S)
InsertLaws(D, o, E) ==
  /\ Conserved(D, E)
  /\ \A p \in Ids(D) : Without(E[p].c, Range(o.s2) \cup UNION { Range(D[n].c) : n \in { m \in Range(o.s2) : IsRoot(D, m) } } \cup (Ids(E) \ Ids(D)))
                     = Without(D[p].c, Range(o.s2) \cup UNION { Range(D[n].c) : n \in { m \in Range(o.s2) : IsRoot(D, m) } })
  /\ (Len(o.s) = 1 /\ Len(o.s2) = 1) =>
       LET q == o.s[1]  n == o.s2[1] IN
       IF Refused(D, o.pos, q, n) THEN E = D
       ELSE IF IsRoot(D, n) THEN \A m \in Range(D[n].c) : (Sibling(o.pos) \/ MayHold(D, q, m)) => E[m].p = (IF Sibling(o.pos) THEN D[q].p ELSE q)
       ELSE PlacedOk(E, o.pos, q, n)
(* C11 *)
RemoveLaws(D, o, E) ==
  /\ Conserved(D, E) /\ Len(E) = Len(D)
  /\ \A n \in Range(o.s) : E[n].p = 0 \/ IsRoot(D, n)
  /\ \A n \in Range(o.s) : Apart1(D, n, o.s) => Pre(D, n) = Pre(E, n)
  /\ \A p \in Ids(D) : E[p].c = Without(D[p].c, Range(o.s))
ReplaceLaws(D, o, E) ==
  /\ Conserved(D, E)
  /\ (Len(o.s) = 1 /\ Len(o.s2) = 1) =>
       LET q == o.s[1]  n == o.s2[1] IN
       IF Refused(D, "replace", q, n) THEN E = D
       ELSE IF IsRoot(D, n) THEN D[n].c # << >> => E[q].p = 0
       ELSE /\ E[q].p = 0 /\ E[n].p = D[q].p
            /\ LET was == Without(D[D[q].p].c, {n}) IN
               E[D[q].p].c = [i \in DOMAIN was |-> IF was[i] = q THEN n ELSE was[i]]
(* C13 *)
SetAttrLaws(D, o, E) ==
  /\ SameBut(D, E, Range(o.s))
  /\ \A n \in Range(o.s) : IsEl(D, n) =>
       /\ HasAttr(E, n, o.nm) /\ HasVal(E, n, o.nm) = (o.h = 1) /\ (o.h = 1 => Val(E, n, o.nm) = o.str)
       /\ SelectSeq(E[n].a, LAMBDA b : b[1] # o.nm) = SelectSeq(D[n].a, LAMBDA b : b[1] # o.nm)
       /\ Cardinality(AttrAt(E, n, o.nm)) = 1 /\ E[n].c = D[n].c /\ E[n].p = D[n].p
  /\ SetAttr(E, o.s, o.nm, o.h, o.str) = E
RemoveAttrLaws(D, o, E) ==
  /\ SameBut(D, E, Range(o.s))
  /\ \A n \in Range(o.s) : ~HasAttr(E, n, o.nm)
  /\ RemoveAttr(E, o.s, o.nm) = E
(* C14 *)
ClassLaws(old, arg) ==
  LET N(op, s) == NextClasses(op, s, arg) IN
  /\ N("add_class", N("add_class", old)) = N("add_class", old)
  /\ N("remove_class", N("remove_class", old)) = N("remove_class", old)
  /\ N("toggle_class", N("toggle_class", old)) = old
  /\ arg \subseteq N("add_class", old) /\ arg \cap N("remove_class", old) = {}
  /\ N("add_class", old) \ arg = old \ arg /\ N("remove_class", old) = old \ arg
(* C15 *)
TextLaws(D, o, E) ==
  /\ Decode(Encode(o.str)) = o.str /\ Escaped(Encode(o.str))
  /\ \A n \in Range(o.s) : (IsEl(D, n) /\ D[n].t \notin VoidTags /\ Apart1(D, n, o.s)) => Text(E, n) = o.str
  /\ \A n \in Ids(D) : Shape(D, n) = Shape(E, n) \/ (n \in Range(o.s) /\ IsRaw(D, n))
(* C16 *)
HtmlLaws(D) == \A n \in Els(D) : LET t == Term(D, n) IN Norm(Norm(t)) = Norm(t)
SetHtmlLaws(D, o, E) ==
  \A n \in Range(o.s) : (IsEl(D, n) /\ D[n].t \notin VoidTags /\ ~IsRaw(D, n) /\ Apart1(D, n, o.s)) => Term(E, n).c = o.ts
(* C17: the text nodes make up the text *)
TextsLaws(D) ==
  \A n \in Els(D) : /\ Concat([i \in DOMAIN Texts(D, << n >>, 0) |-> Text(D, Texts(D, << n >>, 0)[i])]) = Text(D, n)
                    /\ \A lim \in 1..3 : Range(Texts(D, << n >>, lim)) \subseteq Range(Texts(D, << n >>, lim + 1))
(* C18 *)
CopyLaws(D, o, E) ==
  LET m == Len(D) + 1 IN
  /\ Term(E, m) = Term(D, o.x) /\ E[m].p = 0
  /\ \A n \in Ids(D) : E[n] = D[n]
  /\ \A n \in SubOf(E, m) : n > Len(D)
(* C19 *)
FormLaws(D) ==
  \A n \in Els(D) :
    LET on == { m \in DescEl(D, n) : IsOption(D, m) /\ Checked(D, m) } IN
    D[n].t = "select" => LET v == FormValue(D, n) IN
      /\ v[1] = (IF HasAttr(D, n, "multiple") THEN "many" ELSE "one")
      /\ v[1] = "many" => Len(v) - 1 = Cardinality({ m \in Range(OptsUnder(D, n)) : Selected(D, m) })
      /\ (v[1] = "one" /\ on # {}) => \E m \in on : v[2] = OptVal(D, m)
=============================================================================
