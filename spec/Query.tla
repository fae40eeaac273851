------------------------------ MODULE Query ------------------------------
(* What every read-only operation on a set of elements returns.             *)
EXTENDS Sel

LastOf(s)  == IF s = << >> THEN {} ELSE {s[Len(s)]}
FirstOf(s) == IF s = << >> THEN {} ELSE {s[1]}

(* the elements related to a set S of nodes by a step *)
SiblingsOf(D, S) ==
  UNION { LET k == Range(ElKids(D, p))  in == S \cap k IN
          IF Cardinality(in) > 1 THEN k ELSE k \ in : p \in { D[n].p : n \in S } \ {0} }
Step(D, S, c) ==
  CASE c = " "       -> UNION { DescEl(D, n) : n \in S }
    [] c = ">"       -> UNION { Range(ElKids(D, n)) : n \in S }
    [] c = "+"       -> UNION { FirstOf(After(D, n)) : n \in S }
    [] c = "~"       -> UNION { Range(After(D, n)) : n \in S }
    [] c = "prev"    -> UNION { LastOf(Before(D, n)) : n \in S }
    [] c = "prevall" -> UNION { Range(Before(D, n)) : n \in S }
    [] c = "parent"  -> UNION { ParEl(D, n) : n \in S }
    [] c = "parents" -> UNION { AncEl(D, n) : n \in S }
    [] c = "sibs"    -> SiblingsOf(D, S)

(* follow group g from the set S, its first compound related by step c *)
RECURSIVE Follow(_, _, _, _, _)
Follow(D, S, g, i, c) ==
  IF i > Len(g) THEN S
  ELSE Follow(D, { n \in Step(D, S, IF i = 1 THEN c ELSE g[i].c) : MCompound(D, n, g[i].m) }, g, i + 1, c)

Find(D, S, q) == UNION { Follow(D, S, q[i], 1, q[i][1].c) : i \in DOMAIN q }
(* a method (children, next, parents ...) with a selector: the head of each *)
(* group is reached by the method's step, the rest by the combinators       *)
Walk(D, S, c, q) ==
  IF q = << >> THEN Step(D, S, c)
  ELSE UNION { IF q[i][1].c = " " THEN Follow(D, S, q[i], 1, c)
               ELSE Follow(D, Step(D, S, c), q[i], 1, q[i][1].c) : i \in DOMAIN q }

Filter(D, S, q) == { n \in S : MSel(D, n, q) }
Has(D, S, q)    == { n \in S : \E m \in DescEl(D, n) : MSel(D, m, q) }

RECURSIVE ClosestOf(_, _, _)
ClosestOf(D, n, q) == IF MSel(D, n, q) THEN {n}
                      ELSE UNION { ClosestOf(D, m, q) : m \in ParEl(D, n) }
Closest(D, S, q) == UNION { ClosestOf(D, n, q) : n \in S }

(* walk from n by single steps until an element matches q; keep those that  *)
(* match f (an empty f keeps all); the stopping element only if incl        *)
RECURSIVE UntilOf(_, _, _, _, _, _)
UntilOf(D, n, c, q, f, incl) ==
  UNION { LET stop == MSel(D, m, q)
              keep == (f = << >> \/ MSel(D, m, f)) /\ (~stop \/ incl) IN
          (IF keep THEN {m} ELSE {}) \cup (IF stop THEN {} ELSE UntilOf(D, m, c, q, f, incl))
          : m \in Step(D, {n}, c) }
Until(D, S, c, q, f, incl) == UNION { UntilOf(D, n, c, q, f, incl) : n \in S }

(* ------------------------- operations on sequences ---------------------- *)
(* sets of elements are kept in document order: S below is a sequence       *)
Keep(S, T)   == SelectSeq(S, LAMBDA n : n \in T)
Drop(S, T)   == SelectSeq(S, LAMBDA n : n \notin T)
Slice(S, a, b) == SubSeq(S, a + 1, IF b > Len(S) THEN Len(S) ELSE b)   \* [a, b)
EqAt(S, i)   == IF i < Len(S) THEN << S[i + 1] >> ELSE << >>

(* ------------------------------- text nodes ----------------------------- *)
(* the text nodes under n, down to a depth (0: all); an element with raw    *)
(* content counts as a text node                                            *)
IsRaw(D, n) == IsEl(D, n) /\ D[n].t \in RawTags
RECURSIVE TextsAt(_, _, _, _)
TextsAt(D, n, d, lim) ==
  IF D[n].c = << >> THEN IF IsRaw(D, n) THEN << n >> ELSE << >>
  ELSE Flat([i \in DOMAIN D[n].c |->
         LET m == D[n].c[i] IN
         CASE IsText(D, m) -> << m >>
           [] IsRaw(D, m) -> << m >>
           [] IsEl(D, m) /\ (lim = 0 \/ d + 1 < lim) -> TextsAt(D, m, d + 1, lim)
           [] OTHER -> << >>])
Texts(D, S, lim) == Flat([i \in DOMAIN S |-> TextsAt(D, S[i], 0, lim)])

(* --------------------------------- forms -------------------------------- *)
OptVal(D, n) == ValOr(D, n, "value", "")
FormValue(D, n) ==
  CASE D[n].t \in {"input", "option"} -> << "one", OptVal(D, n) >>
    [] D[n].t = "textarea" -> << "one", Text(D, n) >>
    [] D[n].t = "select" ->
         LET sel == SelectSeq(OptsUnder(D, n), LAMBDA m : HasAttr(D, m, "selected"))
             def == SelectSeq(ElKids(D, n), LAMBDA m : IsOption(D, m)) IN
         IF HasAttr(D, n, "multiple") THEN << "many" >> \o [i \in DOMAIN sel |-> OptVal(D, sel[i])]
         ELSE IF sel # << >> THEN << "one", OptVal(D, sel[1]) >>
         ELSE IF def # << >> THEN << "one", OptVal(D, def[1]) >>
         ELSE << "one", "" >>
    [] OTHER -> << "one", "" >>

(* ------------------------------- documents ------------------------------ *)
FirstTag(D, r, t) == SelectSeq(Pre(D, r), LAMBDA n : IsEl(D, n) /\ D[n].t = t)
ById(D, r, v)     == SelectSeq(Pre(D, r), LAMBDA n : IsEl(D, n) /\ HasVal(D, n, "id") /\ Val(D, n, "id") = v)
=============================================================================
