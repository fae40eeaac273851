------------------------------ MODULE Visdom ------------------------------
(* The system as a state machine.  A state is the store of nodes together   *)
(* with how it came about: the documents that were loaded and the changes   *)
(* made since.  Every small document of a property's universe is an initial *)
(* state, every change of that universe is a step.  TLC checks the laws on  *)
(* every reachable state, and prints every behaviour with the questions to  *)
(* ask at its end: these are replayed into the real code, and what the code *)
(* does is judged by Trace.tla.                                             *)
EXTENDS Laws, Grammar, TLC, Json, IOUtils

P     == IOEnv.PROPERTY
Size  == atoi(IOEnv.SIZE)       \* nodes in a document
Depth == atoi(IOEnv.DEPTH)      \* changes made to it

VARIABLES docs, dom, prev, hist, typed
vars == << docs, dom, prev, hist, typed >>

(* ------------------------------- documents ------------------------------ *)
El(t)        == [k |-> "el", t |-> t, a |-> << >>, x |-> "", c |-> << >>]
With(t, n, v) == [El(t) EXCEPT !.a = Append(@, << n, 1, v >>)]
FlagOn(t, n) == [t EXCEPT !.a = Append(@, << n, 0, "" >>)]
AttrOn(t, n, v) == [t EXCEPT !.a = Append(@, << n, 1, v >>)]
Kids(t, c)   == [t EXCEPT !.c = c]
RawEl(t, x)  == [El(t) EXCEPT !.x = x]
Tx(x)        == [k |-> "text", t |-> "", a |-> << >>, x |-> x, c |-> << >>]
Cm(x)        == [k |-> "comment", t |-> "", a |-> << >>, x |-> x, c |-> << >>]
Leaf(t)      == t.k # "el" \/ t.t \in VoidTags \cup RawTags

NoTwinText(f) == \A i \in 1..(Len(f) - 1) : ~(f[i].k = "text" /\ f[i + 1].k = "text")
(* all ordered forests of n nodes over a set of labels *)
RECURSIVE Trees(_, _), Forests(_, _)
Trees(n, L) == { Kids(t, f) : t \in { u \in L : n = 1 \/ ~Leaf(u) }, f \in Forests(n - 1, L) }
Forests(n, L) ==
  IF n = 0 THEN { << >> }
  ELSE { f \in UNION { { << t >> \o r : t \in Trees(k, L), r \in Forests(n - k, L) } : k \in 1..n } : NoTwinText(f) }
UpTo_(n, L) == UNION { Forests(k, L) : k \in 0..n }
(* all sequences over a set of trees *)
RECURSIVE Lists(_, _)
Lists(n, L) == IF n = 0 THEN { << >> } ELSE { << t >> \o r : t \in L, r \in Lists(n - 1, L) }
ListsTo(n, L) == { f \in UNION { Lists(k, L) : k \in 0..n } : NoTwinText(f) }

AB   == {El("a"), El("b")}
ABT  == AB \cup {Tx("x")}
Frag == << El("i"), Tx("y") >>                       \* a second tree to take from

(* strings up to a length over an alphabet *)
RECURSIVE StrAt(_, _)
StrAt(i, S) == LET m == CHOOSE x \in S : TRUE IN IF i = 1 THEN m ELSE StrAt(i - 1, S \ {m})
RECURSIVE Strs(_, _)
Strs(n, A) == IF n = 0 THEN {""} ELSE {""} \cup { a \o s : a \in A, s \in Strs(n - 1, A) }

(* ------------------------------- selectors ------------------------------ *)
AnyS == [s |-> "any"]
Tag(v) == [s |-> "tag", v |-> v]
Cls(v) == [s |-> "class", v |-> v]
IdS(v) == [s |-> "id", v |-> v]
Att(n, o, v) == [s |-> "attr", n |-> n, o |-> o, v |-> v]
Nth(k, a, b) == [s |-> k, a |-> a, b |-> b]
Flg(k) == [s |-> k]
Con(v) == [s |-> "contains", v |-> v]
NotOf(q) == [s |-> "not", g |-> q]
HasOf(q) == [s |-> "has", g |-> q]
Q1(m) == << << [c |-> " ", m |-> << m >>] >> >>
Q2(m, c, n) == << << [c |-> " ", m |-> << m >>], [c |-> c, m |-> << n >>] >> >>
Q3(l, c, m, d, n) == << << [c |-> " ", m |-> << l >>], [c |-> c, m |-> << m >>], [c |-> d, m |-> << n >>] >> >>
Lead(c, m) == << << [c |-> c, m |-> << m >>] >> >>
Or(p, q) == p \o q
Combs == {" ", ">", "+", "~"}
NthKinds == {"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"}
StructKinds == {"first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type"}

(* ------------------------------ vocabulary ------------------------------ *)
N0 == LET RECURSIVE Size_(_)
          Size_(ts) == IF ts = << >> THEN 0 ELSE 1 + Size_(ts[1].c) + Size_(Tail(ts)) IN
      Len(docs) + Size_(Flat(docs))                  \* nodes that were loaded: both sides number them alike
Named(D)  == { n \in Els(D) : n <= N0 }
Home(D)   == { n \in Named(D) : Top(D, n) = 1 }      \* elements in the first document
Subs(D)   == { InOrder(D, S) : S \in SUBSET Home(D) }
Ones(D)   == { << n >> : n \in Home(D) }
Each(D)   == {<< 1 >>} \cup Ones(D)
All(D)    == InOrder(D, Home(D))
SubsTo(D, k) == { s \in Subs(D) : Len(s) <= k }

(* ------------------------------- universes ------------------------------ *)
FormLists == { Kids(IF m THEN FlagOn(El("select"), "multiple") ELSE El("select"), f) :
                 m \in BOOLEAN,
                 f \in ListsTo(Size, {With("option", "value", "1"), FlagOn(With("option", "value", "2"), "selected"),
                                      Kids(El("optgroup"), << With("option", "value", "3") >>),
                                      Kids(El("optgroup"), << FlagOn(With("option", "value", "4"), "selected") >>),
                                      El("option")}) }
Wrap(fs, t) == { << Kids(t, f) >> : f \in fs }
Docs1 ==
  CASE P \in {"C01", "C02", "C06", "C08", "C26"} -> UpTo_(Size, AB)
    [] P \in {"C07", "C21"} -> UpTo_(Size, ABT)
    [] P = "C03" -> Wrap(ListsTo(Size + 1, ABT), El("p"))
    [] P = "C04" -> { << Kids(El("p"), << El("a"), FlagOn(El("a"), "w") >>) >> \o
                      [i \in 1..Cardinality(Strs(Size, {"a", "-", " "})) |-> With("a", "w", StrAt(i, Strs(Size, {"a", "-", " "})))] ,
                      << El("a"), FlagOn(El("b"), "class"), With("b", "class", "u  v"), With("a", "class", " v\n"), With("a", "class", ""),
                         With("a", "id", "u"), With("b", "id", "u v"), With("a", "id", ""), FlagOn(El("a"), "id"),
                         With("b", "class", "uv"), With("a", "id", "v"), AttrOn(With("a", "id", "v"), "class", "v u") >> }
    [] P = "C05" -> UpTo_(Size, {El("a"), El("b"), Tx("x"), Tx(" "), Cm("x")})
    [] P \in {"C09", "C10", "C11", "C12", "C23"} -> UpTo_(Size, {El("a"), Tx("x")})
    [] P = "C18" -> UpTo_(Size, {With("a", "class", "u"), Tx("x"), RawEl("script", "s")})
    [] P \in {"C13", "C14"} -> { << t >> : t \in {El("a"), With("a", "class", "u"), With("a", "class", "u v"), FlagOn(El("a"), "class"),
                                                  With("a", "class", " v  u "), With("a", "class", ""),
                                                  AttrOn(With("a", "id", "1"), "class", "u"), FlagOn(With("a", "id", "1"), "w")} }
    [] P = "C15" -> { << Kids(El("a"), << Tx("x"), El("b") >>) >>, << El("br") >>, << RawEl("textarea", "x") >>, << El("b") >> }
    [] P = "C16" -> UpTo_(Size, {El("a"), With("b", "w", "1"), Tx("x"), Cm("c"), El("br"), RawEl("style", "s")})
    [] P = "C17" -> UpTo_(Size, {El("a"), Tx("x"), Tx(" "), Cm("c"), RawEl("script", "s")})
    [] P = "C19" -> { << f >> : f \in FormLists }
    [] P = "C22" -> { << Kids(El("html"), h) >> : h \in ListsTo(Size, {Kids(El("head"), << RawEl("title", "t") >>), El("head"), El("body"),
                          Kids(El("body"), << With("a", "id", "u") >>), With("b", "id", "u"), RawEl("title", "b")}) }
                    \cup { << El("a"), With("b", "id", "u") >>, << >> }
    [] P = "C27" -> UpTo_(Size, {El("a"), With("p", "w", "1"), Tx("x"), Tx(" "), Cm("c"), El("br"), RawEl("title", "t"), RawEl("script", "<a>")})
    [] P \in {"C20", "C24"} -> { << Kids(With("a", "class", "u"), << Tx("x"), With("b", "id", "u"), With("b", "w", "u"), El("a") >>), El("b") >> }
    [] OTHER -> { << >> }
Docs2 == CASE P \in {"C09", "C10", "C11", "C12", "C23"} -> { << d, Frag >> : d \in Docs1 }
           [] OTHER -> { << d >> : d \in Docs1 }

(* the changes *)
Pos == {"append", "prepend", "before", "after"}
Tops2(D) == { n \in 1..N0 : IsRoot(D, n) /\ n # 1 }
Ins(D, Q, N) == { [op |-> "insert", pos |-> p, s |-> q, s2 |-> n, rev |-> FALSE] : p \in Pos, q \in Q, n \in N }
Reps(D, Q, N) == { [op |-> "replace", s |-> q, s2 |-> n] : q \in Q, n \in N }
Sources(D) == { << n >> : n \in Named(D) } \cup { << n >> : n \in Tops2(D) }
              \cup { s \in Subs(D) : Len(s) = 2 }
Targets(D) == { << n >> : n \in Named(D) } \cup { s \in Subs(D) : Len(s) = 2 }
SetTexts(D, S, T) == { [op |-> "set_text", s |-> s, str |-> t] : s \in S, t \in T }
Htmls == { [s |-> "", ts |-> << >>], [s |-> "t", ts |-> << Tx("t") >>], [s |-> "<i>t</i>u", ts |-> << Kids(El("i"), << Tx("t") >>), Tx("u") >>] }
SetHtmls(D, S) == { [op |-> "set_html", s |-> s, str |-> h.s, ts |-> h.ts] : s \in S, h \in Htmls }
TextNodes(D) == { n \in 1..N0 : IsText(D, n) /\ D[n].p # 0 /\ IsEl(D, D[n].p) /\ Top(D, n) = 1 }
TextChanges(D) ==
  { [op |-> o, s |-> << n >>, str |-> t, ts |-> << Tx("zz") >>, from |-> << D[n].p >>, lim |-> 1, via |-> FALSE] :
      o \in {"t_set_text", "t_append", "t_prepend"}, n \in TextNodes(D), t \in {"", "t", "&lt;"} }
  \cup { [op |-> "t_set_html", s |-> << n >>, str |-> h.s, ts |-> h.ts, from |-> << D[n].p >>, lim |-> 1, via |-> FALSE] :
      n \in TextNodes(D), h \in Htmls }
  \cup { [op |-> "t_remove", s |-> << n >>, str |-> "", ts |-> << >>, from |-> << D[n].p >>, lim |-> 1, via |-> FALSE] : n \in TextNodes(D) }
Copies(D) == { [op |-> "copy", x |-> n, via |-> v] : n \in Named(D), v \in BOOLEAN }
Removes(D, S) == { [op |-> "remove", s |-> s] : s \in S }
Empties(D, S) == { [op |-> "empty", s |-> s] : s \in S }
SetAttrs(S, N, V) == { [op |-> "set_attr", s |-> s, nm |-> n, h |-> v[1], str |-> v[2]] : s \in S, n \in N, v \in V }
RemAttrs(S, N) == { [op |-> "remove_attr", s |-> s, nm |-> n] : s \in S, n \in N }
Classes(S, T) == { [op |-> o, s |-> s, str |-> t] : o \in {"add_class", "remove_class", "toggle_class"}, s \in S, t \in T }
Few(D) == Ins(D, Ones(D), { << n >> : n \in Named(D) \cup Tops2(D) }) \cup Removes(D, Ones(D)) \cup Empties(D, Ones(D))
          \cup SetTexts(D, Ones(D), {"t"}) \cup Reps(D, Ones(D), { << n >> : n \in Named(D) })
Ops(D) ==
  CASE P = "C09" -> Ins(D, Ones(D), Sources(D)) \cup Reps(D, Ones(D), Sources(D)) \cup Removes(D, Ones(D)) \cup Empties(D, Ones(D))
                    \cup SetHtmls(D, Ones(D)) \cup SetTexts(D, Ones(D), {"t"}) \cup TextChanges(D) \cup { c \in Copies(D) : c.via }
    [] P = "C10" -> Ins(D, Targets(D), Sources(D))
    [] P = "C11" -> Removes(D, Subs(D)) \cup Empties(D, SubsTo(D, 2)) \cup Reps(D, Targets(D), Sources(D))
    [] P = "C12" -> Ins(D, Targets(D), { << n >> : n \in 1..N0 } \cap { << n >> : n \in Named(D) \cup {1} })
                    \cup Reps(D, Targets(D), { << n >> : n \in Named(D) \cup {1} })
    [] P = "C13" -> SetAttrs(Ones(D), {"id", "CLASS", "w"}, {<<1, "2">>, <<0, "">>, <<1, "">>, <<1, "a\"b">>}) \cup RemAttrs(Ones(D), {"id", "Class", "w"})
    [] P = "C14" -> Classes(Ones(D), {"u", "v", "u v", " w  u", "", "U"})
    [] P = "C15" -> SetTexts(D, { << n >> : n \in Home(D) }, Strs(Size, {"<", ">", "&", ";", "l", "t", "\"", " "}) \cup {"&lt;", "&amp;lt;", "&#60;", "<a>", "</a>", "<!--"})
    [] P = "C16" -> SetHtmls(D, Ones(D))
    [] P = "C17" -> TextChanges(D)
    [] P = "C18" -> Copies(D) \cup SetTexts(D, Ones(D), {"t"}) \cup Classes(Ones(D), {"v"}) \cup Removes(D, Ones(D))
    [] P = "C19" -> SetAttrs(Ones(D), {"selected"}, {<<0, "">>}) \cup RemAttrs(Ones(D), {"selected", "multiple"})
    [] P = "C22" -> Removes(D, Ones(D)) \cup RemAttrs(Ones(D), {"id"}) \cup SetAttrs(Ones(D), {"id"}, {<<1, "v">>}) \cup { o \in Ins(D, Ones(D), Ones(D)) : o.pos \in {"append", "before"} }
    [] P = "C23" -> Few(D) \cup Classes(Ones(D), {"u"}) \cup SetAttrs(Ones(D), {"id"}, {<<1, "v">>})
    [] OTHER -> {}

(* the questions *)
Ask(m, s, q) == [op |-> m, s |-> s, q |-> q]
Asks(M, S, Q) == { Ask(m, s, q) : m \in M, s \in S, q \in Q }
Simples == {AnyS, Tag("a"), Tag("b")}
TwoParts == { Q2(m, c, n) : m \in Simples, c \in Combs, n \in Simples }
ThreeParts == { Q3(l, c, m, d, n) : l \in {AnyS, Tag("a")}, c \in Combs, m \in {AnyS, Tag("b")}, d \in Combs, n \in {AnyS, Tag("a")} }
Walks_ == {"children", "prev", "prev_all", "next", "next_all", "siblings", "parent", "parents"}
Untils_(S, Q, F) == { [op |-> m, s |-> s, q |-> q, f |-> f, inc |-> i] : m \in {"prev_until", "next_until", "parents_until"}, s \in S, q \in Q, f \in F, i \in BOOLEAN }
FewSel == {Q1(Tag("a")), Q1(AnyS), Q2(Tag("a"), " ", AnyS), Q2(AnyS, "+", Tag("b")), Q1(Flg("first-child")), Q1(NotOf(Q1(Tag("a")))), Or(Q1(Tag("b")), Q1(Tag("a")))}
NthSels == { Q1(Nth(k, a, b)) : k \in NthKinds, a \in -2..2, b \in -1..3 } \cup { Q1(Flg(k)) : k \in StructKinds }
AttrSels == { Q1(Att("w", o, v)) : o \in {"", "=", "!=", "^=", "$=", "*=", "~=", "|="}, v \in Strs(Size, {"a", "-", " "}) }
NameSels == { Q1(Cls(v)) : v \in {"u", "v", "uv"} } \cup { Q1(IdS(v)) : v \in {"u", "v"} }
            \cup { Q1(Att(n, o, v)) : n \in {"id", "class"}, o \in {"=", "~="}, v \in {"u", "v", "u v", ""} } \cup {Q1(Tag("A")), Q1(Tag("b"))}
NoVal(q) == q[1][1].m[1].s # "attr" \/ q[1][1].m[1].o # "" \/ q[1][1].m[1].v = ""
Inner == {Q1(Tag("a")), Q1(Tag("b")), Q1(Flg("empty")), Q1(Con("x")), Q1(AnyS), Q2(Tag("a"), ">", AnyS), Or(Q1(Tag("b")), Q1(Con("x")))}
StateSels == Inner \cup { Q1(NotOf(q)) : q \in Inner } \cup { Q1(HasOf(q)) : q \in Inner } \cup { Q1(NotOf(Q1(HasOf(q)))) : q \in Inner }
             \cup { Q1(HasOf(Q1(NotOf(q)))) : q \in Inner } \cup {Q1(Con("")), Q1(Con("xx")), Q1(Con(" "))}
(* a selector is typed token by token: what is there so far, and every token that may come next.  The tokens *)
(* of C24 are the parts of selectors, those of C20 single characters after some beginning                    *)
Tokens == CASE P = "C24" -> {"a", "b", "*", " ", ">", "+", "~", ",", ".u", "#u", "[w]", "[w=u]", "[w", "]", ":first-child", ":not(", ":has(", ")",
                             ":nth-child(", "2", "n", "-", ":contains(x", "\t"}
            [] P = "C20" -> {"a", "b", "u", "x", "n", "1", "0", "-", "+", " ", "(", ")", "[", "]", ":", ".", "#", "'", "\"", "=", "\\", ",", ">", "~", "*", "^", "|", "!"}
            [] OTHER -> {}
Typed0 == CASE P = "C20" -> {"", "[w", "[w=", "[w='", "[w=u", ":nth-child(", ":nth-child(n", ":not(", ":not(a", ":contains(", ":contains('", "a:", ".u", "b >"}
            [] OTHER -> {""}
TypeAsks(D) == { [op |-> m, s |-> s, str |-> typed \o t, bad |-> "spec"] : t \in Tokens, m \in IF P = "C24" THEN {"find", "filter"} ELSE {"find"},
                 s \in {<< 1 >>, All(D)} } 
Ends(n) == 0..(n + 1)
Docq(D, M) == { [op |-> m, x |-> 1, y |-> y, nm |-> nm, via |-> v] : m \in M, y \in {IF Home(D) = {} THEN 1 ELSE All(D)[1]}, nm \in {"u", "v"}, v \in BOOLEAN }
Elq(D) == { [op |-> m, x |-> n, y |-> n, nm |-> "w", a |-> 0] : n \in Home(D),
             m \in {"e_next", "e_prev", "e_nexts", "e_prevs", "e_siblings", "e_children", "e_child_nodes", "e_parent", "e_index", "e_tag_name", "e_type"} }
Questions(D) ==
  CASE P = "C01" -> Asks({"find"}, Each(D), TwoParts \cup { Lead(c, m) : c \in Combs, m \in Simples }) \cup Asks({"find"}, {<< 1 >>}, ThreeParts)
    [] P = "C02" -> Asks({"find", "children", "next_all", "prev_all", "parents", "siblings", "next", "prev", "parent", "closest"}, Subs(D), {Q1(AnyS), Or(Q1(Tag("b")), Q1(Tag("a"))), Or(Q1(Tag("a")), Q1(AnyS))})
                    \cup { [op |-> "add", s |-> s, s2 |-> t] : s \in Subs(D), t \in Subs(D) }
    [] P = "C03" -> Asks({"filter"}, {All(D)}, NthSels)
    [] P = "C04" -> Asks({"filter"}, {All(D)}, { q \in AttrSels \cup NameSels : NoVal(q) })
    [] P = "C05" -> Asks({"filter"}, {All(D)}, StateSels)
    [] P = "C06" -> Asks({"filter", "not", "is", "is_all", "has", "closest"}, Subs(D), FewSel)
    [] P = "C07" -> Asks(Walks_, Subs(D), {<< >>, Q1(Tag("a")), Or(Q1(Tag("b")), Q1(Tag("a")))}) \cup Untils_(SubsTo(D, 1), {Q1(Tag("a")), Q1(Flg("first-child"))}, {<< >>, Q1(Tag("b"))}) \cup Elq(D)
    [] P = "C08" -> { [op |-> m, s |-> s, s2 |-> t] : m \in {"add", "filter_in", "not_in", "has_in", "is_in", "is_all_in"}, s \in Subs(D), t \in Subs(D) }
                    \cup { [op |-> "slice", s |-> s, a |-> a, b2 |-> b, kind |-> 0, ra |-> a, rb |-> b] : s \in {All(D)}, a \in Ends(Len(All(D))), b \in Ends(Len(All(D))) }
                    \cup { [op |-> "slice", s |-> s, a |-> a, b2 |-> b + 1, kind |-> 4, ra |-> a, rb |-> b] : s \in {All(D)}, a \in Ends(Len(All(D))), b \in Ends(Len(All(D))) }
                    \cup { [op |-> m, s |-> s, a |-> a] : m \in {"eq", "get", "first", "last", "length"}, s \in Subs(D), a \in 0..3 }
                    \cup { [op |-> "contains", s |-> s, x |-> x, c |-> c] : s \in Subs(D), x \in Home(D), c \in Combs \cup {""} }
    [] P = "C16" -> { [op |-> m, s |-> s] : m \in {"html", "outer_html", "htmls", "outer_htmls"}, s \in SubsTo(D, 2) }
    [] P = "C17" -> IF hist # << >> THEN {} ELSE { [op |-> "texts", s |-> s, a |-> a, nm |-> ""] : s \in SubsTo(D, 2), a \in 0..3 }
                    \cup { [op |-> "texts_by_rec", s |-> s, a |-> a, nm |-> "a"] : s \in Ones(D), a \in {0, 2} }
    [] P = "C19" -> { [op |-> "val", s |-> s] : s \in Ones(D) } \cup Asks({"filter"}, {All(D)}, {Q1(Flg("checked")), Q1(NotOf(Q1(Flg("checked"))))})
    [] P = "C21" -> Asks({"find"}, Each(D), {Q1(AnyS), Q2(Tag("a"), "~", Tag("b"))}) \cup Asks(Walks_, Ones(D), {<< >>}) \cup { [op |-> m, s |-> s] : m \in {"text", "outer_html", "html"}, s \in Ones(D) } \cup Elq(D)
    [] P = "C22" -> Docq(D, {"title", "head", "body", "document_element", "get_element_by_id", "root_element", "source_code"})
    [] P = "C23" -> IF hist = << >> THEN {} ELSE Asks({"find"}, {<< 1 >>}, {Q1(AnyS), Q1(Tag("a")), Q1(IdS("v")), Q1(Cls("u")), Q1(Flg("first-child")), Q1(Flg("empty")), Q1(Nth("nth-last-child", 2, 0))})
                    \cup Asks({"siblings", "children", "parents"}, Ones(D), {<< >>}) \cup { [op |-> "text", s |-> All(D)] }
    [] P \in {"C20", "C24"} -> { q \in TypeAsks(D) : (q.op = "find") = (q.s = << 1 >>) }
    [] P = "C26" -> { [op |-> m, s |-> s, a |-> a] : m \in {"for_each", "each", "map", "into_iter", "get_ref"}, s \in Subs(D), a \in 0..3 }
                    \cup { [op |-> m, s |-> s, s2 |-> SelectSeq(s, LAMBDA n : n \in T)] : m \in {"filter_by", "not_by", "is_by", "is_all_by"}, s \in Subs(D), T \in SUBSET Home(D) }
    [] P = "C27" -> { [op |-> "outer_htmls", s |-> All(D)], [op |-> "text", s |-> All(D)] }
    [] OTHER -> {}

(* ------------------------------ the machine ----------------------------- *)
RootRec == [k |-> "root", t |-> "", a |-> << >>, x |-> "", p |-> 0, c |-> << >>]
RECURSIVE LoadAll(_, _)
LoadAll(D, ds) == IF ds = << >> THEN D ELSE LoadAll(AddTerms(Append(D, RootRec), Len(D) + 1, ds[1], 1), Tail(ds))
Init == /\ docs \in Docs2
        /\ dom = LoadAll(<< >>, docs) /\ prev = << >> /\ hist = << >>
        /\ typed \in Typed0
Change == /\ Len(hist) < Depth
          /\ \E o \in Ops(dom) :
               /\ dom' = Do(dom, o).d
               /\ prev' = dom
               /\ hist' = Append(hist, o)
          /\ UNCHANGED << docs, typed >>
Type == /\ Tokens # {} /\ TLCGet("level") < Size
        /\ \E t \in Tokens : typed' = typed \o t
        /\ UNCHANGED << docs, dom, prev, hist >>
Next == Change \/ Type
Spec == Init /\ [][Next]_vars

(* ------------------------------ what is checked ------------------------- *)
TypeOk == WellFormed(dom)                                           \* C09, on every state of every universe
Step_ == hist # << >> =>
  LET o == hist[Len(hist)] IN
  CASE o.op = "insert"      -> InsertLaws(prev, o, dom)
    [] o.op = "remove"      -> RemoveLaws(prev, o, dom)
    [] o.op = "replace"     -> ReplaceLaws(prev, o, dom)
    [] o.op = "set_attr"    -> SetAttrLaws(prev, [o EXCEPT !.nm = Lower(@)], dom)
    [] o.op = "remove_attr" -> RemoveAttrLaws(prev, [o EXCEPT !.nm = Lower(@)], dom)
    [] o.op = "set_text"    -> TextLaws(prev, o, dom)
    [] o.op = "set_html"    -> SetHtmlLaws(prev, o, dom)
    [] o.op = "copy"        -> CopyLaws(prev, o, dom)
    [] o.op \in {"add_class", "remove_class", "toggle_class"} ->
         \A n \in Range(o.s) : /\ ClassLaws(ClassSet(prev, n), WordSet(o.str))
                               /\ ClassSet(dom, n) = NextClasses(o.op, ClassSet(prev, n), WordSet(o.str))
    [] OTHER -> TRUE
State_ ==
  CASE P \in {"C01", "C23"} -> \A q \in TwoParts \cup ThreeParts : ForwardIsBackward(dom, q) /\ CommaIsUnion(dom, q \o Q1(Tag("a"))) /\ FindIsMonotone(dom, q)
    [] P = "C02" -> \A S \in SUBSET Home(dom) : OrderOk(dom, S)
    [] P = "C03" -> NthLaws(dom)
    [] P = "C04" -> \A nm \in {"w", "id", "class"}, v \in Strs(IF Size > 2 THEN 2 ELSE Size, {"a", "-", " "}) \cup {"u", "v", "u v"} : AttrLaws(dom, nm, v)
    [] P = "C05" -> (\A q \in Inner : ContentLaws(dom, q)) /\ \A v \in {"x", " ", ""} : ContainsUp(dom, v)
    [] P = "C06" -> \A S \in SUBSET Home(dom), q \in FewSel : FilterLaws(dom, S, q)
    [] P = "C07" -> WalkLaws(dom) /\ \A q \in FewSel : UntilLaws(dom, q)
    [] P = "C16" -> HtmlLaws(dom)
    [] P = "C17" -> TextsLaws(dom)
    [] P = "C19" -> FormLaws(dom)
    [] P \in {"C20", "C24"} -> \A t \in Tokens : RoundTrip(typed \o t) /\ BlankLaw(typed \o t)
    [] OTHER -> TRUE
(* the behaviour, for the replay into the code *)
Emit == LET qs == Questions(dom) IN
        IF hist = << >> /\ qs = {} THEN TRUE
        ELSE PrintT(<< "B", ToJson([docs |-> docs, hist |-> hist, ask |-> qs]) >>)
=============================================================================
