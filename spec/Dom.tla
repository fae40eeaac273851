------------------------------- MODULE Dom -------------------------------
(* The state of the system: a store of nodes.                               *)
(*                                                                          *)
(* A store D is a sequence of node records; the position is the identity    *)
(* of the node and never changes.  A record has                             *)
(*   k  kind: "root" (a loaded document or fragment), "el", "text",         *)
(*      "comment", "other"                                                  *)
(*   t  tag name, lower case ("" when not an element)                       *)
(*   a  attributes, in order: <<name, 1, value>> or <<name, 0, "">>         *)
(*   x  source text: of a text node, of a comment, or of an element whose   *)
(*      content is raw text (script, style, title, textarea)                *)
(*   p  parent (0: none)                                                    *)
(*   c  children, in order                                                  *)
(* Nodes without a parent are the tops of trees: loaded documents, removed  *)
(* subtrees and clones.                                                     *)
EXTENDS Str

Ids(D)  == 1..Len(D)
IsEl(D, n)   == D[n].k = "el"
IsRoot(D, n) == D[n].k = "root"
IsText(D, n) == D[n].k = "text"

VoidTags  == {"area", "base", "br", "col", "embed", "hr", "img", "input", "link",
              "meta", "param", "source", "track", "wbr"}
PlainTags == {"title", "textarea"}
RawTags   == PlainTags \cup {"script", "style"}

(* ------------------------------- tree walks ----------------------------- *)
ElKids(D, n) == SelectSeq(D[n].c, LAMBDA m : IsEl(D, m))
KidPos(D, n) == IndexIn(D[D[n].p].c, n)

RECURSIVE Pre(_, _)                       \* the subtree of n in document order
Pre(D, n) == << n >> \o Flat([i \in DOMAIN D[n].c |-> Pre(D, D[n].c[i])])

RECURSIVE Anc(_, _)                       \* proper ancestors, including the root
Anc(D, n) == IF D[n].p = 0 THEN {} ELSE {D[n].p} \cup Anc(D, D[n].p)
RECURSIVE Top(_, _)
Top(D, n) == IF D[n].p = 0 THEN n ELSE Top(D, D[n].p)

Desc(D, n)    == Range(Pre(D, n)) \ {n}
DescEl(D, n)  == { m \in Desc(D, n) : IsEl(D, m) }
AncEl(D, n)   == { m \in Anc(D, n) : IsEl(D, m) }
ParEl(D, n)   == IF D[n].p # 0 /\ IsEl(D, D[n].p) THEN {D[n].p} ELSE {}
Tops(D)       == { n \in Ids(D) : D[n].p = 0 }

(* the element siblings before / after n, in document order *)
Before(D, n) == IF D[n].p = 0 THEN << >>
                ELSE LET c == ElKids(D, D[n].p) IN SubSeq(c, 1, IndexIn(c, n) - 1)
After(D, n)  == IF D[n].p = 0 THEN << >>
                ELSE LET c == ElKids(D, D[n].p) IN SubSeq(c, IndexIn(c, n) + 1, Len(c))

(* the members of a set, in document order (the set lies in one tree) *)
InOrder(D, S) == IF S = {} THEN << >>
                 ELSE LET t == Top(D, CHOOSE n \in S : TRUE) IN
                      SelectSeq(Pre(D, t), LAMBDA n : n \in S)

(* ------------------------------- attributes ----------------------------- *)
AttrAt(D, n, nm)  == { i \in DOMAIN D[n].a : D[n].a[i][1] = nm }
HasAttr(D, n, nm) == AttrAt(D, n, nm) # {}
HasVal(D, n, nm)  == \E i \in AttrAt(D, n, nm) : D[n].a[i][2] = 1
Val(D, n, nm)     == D[n].a[CHOOSE i \in AttrAt(D, n, nm) : TRUE][3]
ValOr(D, n, nm, d) == IF HasVal(D, n, nm) THEN Val(D, n, nm) ELSE d

(* --------------------------------- text --------------------------------- *)
RECURSIVE Text(_, _)
Text(D, n) ==
  CASE D[n].k = "text" -> Decode(D[n].x)
    [] D[n].k = "el" /\ D[n].t \in RawTags -> D[n].x
    [] D[n].k \in {"el", "root"} -> Concat([i \in DOMAIN D[n].c |-> Text(D, D[n].c[i])])
    [] OTHER -> ""

(* ---------------------------- well-formedness --------------------------- *)
(* every child names its parent and the other way round; no node is in two  *)
(* places; no node is its own ancestor; only nodes that may have children   *)
(* have them                                                                *)
ChildParentAgree(D) ==
  \A n \in Ids(D) : /\ IsUniq(D[n].c)
                    /\ \A i \in DOMAIN D[n].c : D[n].c[i] \in Ids(D) /\ D[D[n].c[i]].p = n
                    /\ D[n].p # 0 => D[n].p \in Ids(D) /\ n \in Range(D[D[n].p].c)
                    \* (so no node is a child of two: both would be its parent)
RECURSIVE UpTo(_, _, _)
UpTo(D, n, fuel) == IF D[n].p = 0 THEN TRUE ELSE fuel > 0 /\ UpTo(D, D[n].p, fuel - 1)
Acyclic(D) == \A n \in Ids(D) : UpTo(D, n, Len(D))
KindsOk(D) == \A n \in Ids(D) :
                 /\ D[n].k = "root" => D[n].p = 0
                 /\ (D[n].k \in {"text", "comment", "other"} => D[n].c = << >>)
                 /\ (D[n].k = "el" /\ D[n].t \in VoidTags => D[n].c = << >>)
WellFormed(D) == ChildParentAgree(D) /\ Acyclic(D) /\ KindsOk(D)

(* ------------------------------ tree terms ------------------------------ *)
(* A term is a tree without identities: [k, t, a, x, c].                    *)
RECURSIVE Term(_, _)
Term(D, n) == [k |-> D[n].k, t |-> D[n].t, a |-> D[n].a, x |-> D[n].x,
               c |-> [i \in DOMAIN D[n].c |-> Term(D, D[n].c[i])]]
(* adjacent text nodes cannot be told apart in the source: merge them *)
RECURSIVE MergeFrom(_, _)
MergeFrom(ts, i) ==
  IF i > Len(ts) THEN << >>
  ELSE IF ts[i].k = "text" /\ ts[i].x = "" THEN MergeFrom(ts, i + 1)
  ELSE LET rest == MergeFrom(ts, i + 1) IN
       IF rest # << >> /\ ts[i].k = "text" /\ rest[1].k = "text"
       THEN << [ts[i] EXCEPT !.x = @ \o rest[1].x] >> \o Tail(rest)
       ELSE << ts[i] >> \o rest
RECURSIVE Norm(_)
Norm(t) == [t EXCEPT !.c = MergeFrom([i \in DOMAIN t.c |-> Norm(t.c[i])], 1)]
NormAll(ts) == MergeFrom([i \in DOMAIN ts |-> Norm(ts[i])], 1)
=============================================================================
