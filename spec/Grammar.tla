----------------------------- MODULE Grammar -----------------------------
(* The concrete syntax of selectors.                                        *)
(* Parse(s) = [st |-> "ok", q |-> the selector]  s is a selector            *)
(*            [st |-> "bad", ...]   s is no selector: it must be rejected   *)
(*            [st |-> "open", ...]  this specification does not say         *)
(* "open" is for the strings whose reading CSS, jQuery and the library do   *)
(* not agree on (escapes of letters, namespaces, leading zeros, ...).       *)
(* Every reader below takes the string and a position and gives             *)
(* [st, i |-> the position after it, v |-> what was read]; the first        *)
(* status that is not "ok" decides.                                         *)
EXTENDS Str, Integers

CharsOf(s) == { Ch(s, i) : i \in 1..Len(s) }
Alpha   == CharsOf(UpperS) \cup CharsOf(LowerS)
DigitS  == "0123456789"
Digits  == CharsOf(DigitS)
Punct   == CharsOf("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
Ascii   == Alpha \cup Digits \cup Punct \cup {" ", "\t", "\n", "\r", "\f"}
Start1  == Alpha \cup {"_"}
KeyC    == Start1 \cup Digits \cup {"-", ".", ":"}      \* in the name of an attribute
Body    == Start1 \cup Digits \cup {"-"}
CombC   == {">", "+", "~"}
Quotes  == {"\"", "'"}

At(s, i) == IF i > Len(s) THEN "" ELSE Ch(s, i)        \* "" beyond the end
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ IsWs(Ch(s, i)) THEN Skip(s, i + 1) ELSE i
RECURSIVE RunEnd(_, _, _)                              \* the position after the run of characters of C
RunEnd(s, i, C) == IF i <= Len(s) /\ Ch(s, i) \in C THEN RunEnd(s, i + 1, C) ELSE i
RECURSIVE Find1(_, _, _)                               \* the first position of c, 0 if there is none
Find1(s, i, c) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find1(s, i + 1, c)

Ok(i, v) == [st |-> "ok", i |-> i, v |-> v]
Bad      == [st |-> "bad", i |-> 0, v |-> << >>]
Open     == [st |-> "open", i |-> 0, v |-> << >>]
(* a character where none of its sort can be *)
Stray(c) == IF c = "" THEN Bad
            ELSE IF c \in {"|", "&", "/", "-", "\\"} \/ c \notin Ascii THEN Open ELSE Bad

(* ------------------------------- identifiers ---------------------------- *)
RECURSIVE IdentBody(_, _, _)
IdentBody(s, i, acc) ==
  LET c == At(s, i) IN
  IF c = "\\" THEN IF At(s, i + 1) \in Punct \cup {" "} THEN IdentBody(s, i + 2, acc \o At(s, i + 1)) ELSE Open
  ELSE IF c \in Body THEN LET j == RunEnd(s, i, Body) IN IdentBody(s, j, acc \o SubSeq(s, i, j - 1))
  ELSE IF c # "" /\ c \notin Ascii THEN Open
  ELSE Ok(i, acc)
Ident(s, i) == IF At(s, i) \in Start1 THEN IdentBody(s, i, "")
               ELSE IF At(s, i) \in Digits THEN Bad ELSE Stray(At(s, i))

(* ------------------------------- attributes ----------------------------- *)
Quoted(s, i) ==          \* i: at the opening quote
  LET j == Find1(s, i + 1, Ch(s, i)) IN
  IF j = 0 THEN Bad
  ELSE LET v == SubSeq(s, i + 1, j - 1) IN
       IF HasSub(v, "\\") \/ HasSub(v, "\n") \/ HasSub(v, "\r") THEN Open ELSE Ok(j + 1, v)
AttrOp(s, i) == IF At(s, i) = "=" THEN "="
                ELSE IF At(s, i) \in {"!", "^", "$", "*", "~", "|"} /\ At(s, i + 1) = "=" THEN SubSeq(s, i, i + 1) ELSE ""
AttrSel(s, i0) ==        \* i0: after the bracket
  LET i == Skip(s, i0)  k == RunEnd(s, i, KeyC) IN
  IF At(s, i) \notin Start1 THEN IF At(s, i) \in {"", "]", "="} \/ AttrOp(s, i) # "" THEN Bad ELSE Open
  ELSE LET nm == SubSeq(s, i, k - 1)  j == Skip(s, k)  o == AttrOp(s, j) IN
       IF At(s, j) = "]" THEN Ok(j + 1, [s |-> "attr", n |-> nm, o |-> "", v |-> ""])
       ELSE IF At(s, j) = "" \/ (j > k /\ At(s, j) \in Body) THEN Bad
       ELSE IF o = "" THEN Open
       ELSE LET w == Skip(s, j + Len(o))
                r == IF At(s, w) \in {"", "]"} THEN Bad
                     ELSE IF At(s, w) \in Quotes THEN Quoted(s, w)
                     ELSE IF At(s, w) \in Body THEN Ok(RunEnd(s, w, Body), SubSeq(s, w, RunEnd(s, w, Body) - 1))
                     ELSE Open IN
            IF r.st # "ok" THEN r
            ELSE LET e == Skip(s, r.i) IN
                 IF At(s, e) = "]" THEN Ok(e + 1, [s |-> "attr", n |-> nm, o |-> o, v |-> r.v])
                 ELSE IF At(s, e) = "" THEN Bad ELSE Open

(* --------------------------------- an + b ------------------------------- *)
DigitVal(c) == (CHOOSE i \in 1..10 : Ch(DigitS, i) = c) - 1
RECURSIVE NumVal(_, _)
NumVal(t, acc) == IF t = "" THEN acc ELSE NumVal(SubSeq(t, 2, Len(t)), 10 * acc + DigitVal(Ch(t, 1)))
SignVal(c) == IF c = "-" THEN -1 ELSE 1
(* numbers with leading zeros, or too long for this specification *)
OddNumber(t) == \E i \in 1..Len(t) : Ch(t, i) \in Digits /\ (i = 1 \/ Ch(t, i - 1) \notin Digits)
                   /\ LET j == RunEnd(t, i, Digits) IN j - i > 8 \/ (j - i > 1 /\ Ch(t, i) = "0")
RECURSIVE TrimEnd(_)
TrimEnd(t) == IF t # "" /\ IsWs(Ch(t, Len(t))) THEN TrimEnd(SubSeq(t, 1, Len(t) - 1)) ELSE t
Formula(t) ==            \* [a, b] of a formula, << >> if it is none
  LET i == IF At(t, 1) \in {"+", "-"} THEN 2 ELSE 1
      sg == SignVal(At(t, 1))
      j == RunEnd(t, i, Digits)
      num == SubSeq(t, i, j - 1)
      k == Skip(t, j + 1)
      m == Skip(t, k + 1)
      e == RunEnd(t, m, Digits) IN
  IF At(t, j) = "n"
  THEN LET a == sg * (IF num = "" THEN 1 ELSE NumVal(num, 0)) IN
       IF k > Len(t) THEN << a, 0 >>
       ELSE IF Ch(t, k) \in {"+", "-"} /\ e > m /\ e > Len(t)
            THEN << a, SignVal(Ch(t, k)) * NumVal(SubSeq(t, m, e - 1), 0) >> ELSE << >>
  ELSE IF num # "" /\ j > Len(t) THEN << 0, sg * NumVal(num, 0) >> ELSE << >>
NthArg(s, i) ==          \* i: after the parenthesis
  LET j == Find1(s, i, ")") IN
  IF j = 0 THEN Bad
  ELSE LET b == Skip(s, i)  t == TrimEnd(SubSeq(s, b, j - 1)) IN
       IF t = "even" THEN Ok(j + 1, << 2, 0 >>) ELSE IF t = "odd" THEN Ok(j + 1, << 2, 1 >>)
       ELSE IF \E c \in CharsOf(t) : c \notin Digits \cup CharsOf(LowerS) \cup {"+", "-", " ", "\t", "\n", "\r", "\f"} THEN Open
       ELSE IF OddNumber(t) \/ HasSub(t, "of") THEN Open
       ELSE LET f == Formula(t) IN IF f = << >> THEN Bad ELSE Ok(j + 1, f)

(* ----------------------------- pseudo-classes --------------------------- *)
FlagNames == {"first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type",
              "empty", "root", "checked", "header", "input", "submit"}
NthNames  == {"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"}
FnNames   == NthNames \cup {"not", "has", "contains"}
ContainsArg(s, i0) ==
  LET i == Skip(s, i0)
      j == RunEnd(s, i, { c \in Ascii : ~IsWs(c) } \ {")", "(", "'", "\"", "<", ">", "/", "=", "`", "\\"})
      r == IF At(s, i) \in Quotes THEN Quoted(s, i)
           ELSE IF At(s, i) = "" THEN Bad
           ELSE IF j = i THEN Open ELSE Ok(j, SubSeq(s, i, j - 1)) IN
  IF r.st # "ok" THEN r
  ELSE LET e == Skip(s, r.i) IN
       IF At(s, e) = ")" THEN Ok(e + 1, r.v) ELSE IF At(s, e) = "" THEN Bad ELSE Open

RECURSIVE Pseudo(_, _), Simple(_, _, _), Compound(_, _, _), GroupRest(_, _, _, _), Group(_, _, _, _), SelList(_, _, _, _)
Pseudo(s, i) ==          \* i: after the colon
  LET j == RunEnd(s, i, Body)  nm == SubSeq(s, i, j - 1)  c == At(s, j) IN
  IF nm = "" THEN IF c = ":" THEN Bad ELSE Stray(c)
  ELSE IF c # "" /\ (c = "\\" \/ c \notin Ascii) THEN Open
  ELSE IF nm \in FlagNames THEN IF c = "(" THEN Bad ELSE Ok(j, [s |-> nm])
  ELSE IF nm \in FnNames THEN
       IF c # "(" THEN Bad
       ELSE IF nm \in NthNames
            THEN LET r == NthArg(s, j + 1) IN IF r.st # "ok" THEN r ELSE Ok(r.i, [s |-> nm, a |-> r.v[1], b |-> r.v[2]])
       ELSE IF nm = "contains"
            THEN LET r == ContainsArg(s, j + 1) IN IF r.st # "ok" THEN r ELSE Ok(r.i, [s |-> nm, v |-> r.v])
       ELSE LET k == Skip(s, j + 1) IN
            IF At(s, k) = ")" THEN Open
            ELSE LET r == SelList(s, k, TRUE, TRUE) IN
                 IF r.st # "ok" THEN r
                 ELSE IF At(s, r.i) = ")" THEN Ok(r.i + 1, [s |-> nm, g |-> r.v]) ELSE Bad
  ELSE IF Lower(nm) \in FlagNames \cup FnNames \/ (\E f \in FlagNames \cup FnNames : StartsWith(nm, f)) THEN Open
  ELSE Bad

Named_(r, sort) == IF r.st # "ok" THEN r ELSE Ok(r.i, [s |-> sort, v |-> r.v])
Simple(s, i, first) ==
  LET c == At(s, i) IN
  CASE c = "#" -> Named_(Ident(s, i + 1), "id")
    [] c = "." -> Named_(Ident(s, i + 1), "class")
    [] c = "[" -> AttrSel(s, i + 1)
    [] c = ":" -> Pseudo(s, i + 1)
    [] c = "*" -> IF first THEN Ok(i + 1, [s |-> "any"]) ELSE Open
    [] c \in Start1 -> IF first THEN Named_(Ident(s, i), "tag") ELSE Open
    [] OTHER -> Stray(c)
(* the simple selectors from i on: at least one *)
Compound(s, i, acc) ==
  LET r == Simple(s, i, acc = << >>) IN
  IF r.st # "ok" THEN r
  ELSE LET c == At(s, r.i)  all == Append(acc, r.v) IN
       IF c = "" \/ IsWs(c) \/ c \in CombC \cup {",", ")"} THEN Ok(r.i, all) ELSE Compound(s, r.i, all)
GroupRest(s, i, acc, nested) ==     \* i: after a compound
  LET k == Skip(s, i)  c == At(s, k) IN
  IF c \in {"", ","} \/ (c = ")" /\ nested) THEN Ok(k, acc)
  ELSE IF c \notin CombC /\ k = i THEN Bad      \* an unmatched parenthesis
  ELSE LET b == IF c \in CombC THEN Skip(s, k + 1) ELSE k
           r == Compound(s, b, << >>) IN
       IF r.st # "ok" THEN r
       ELSE GroupRest(s, r.i, Append(acc, [c |-> IF c \in CombC THEN c ELSE " ", m |-> r.v]), nested)
Group(s, i, first, nested) ==
  LET c == At(s, i)  lead == c \in CombC
      b == IF lead THEN Skip(s, i + 1) ELSE i
      r == Compound(s, b, << >>) IN
  IF lead /\ (nested \/ ~first) THEN Open
  ELSE IF r.st # "ok" THEN r
  ELSE GroupRest(s, r.i, << [c |-> IF lead THEN c ELSE " ", m |-> r.v] >>, nested)
SelList(s, i, first, nested) ==
  LET r == Group(s, i, first, nested) IN
  IF r.st # "ok" THEN r
  ELSE IF At(s, r.i) = ","
       THEN LET t == SelList(s, Skip(s, r.i + 1), FALSE, nested) IN
            IF t.st # "ok" THEN t ELSE Ok(t.i, << r.v >> \o t.v)
       ELSE Ok(r.i, << r.v >>)

Parse(s) ==
  LET i == Skip(s, 1) IN
  IF i > Len(s) THEN [st |-> "open", q |-> << >>]
  ELSE LET r == SelList(s, i, TRUE, FALSE) IN
       IF r.st # "ok" THEN [st |-> r.st, q |-> << >>]
       ELSE IF r.i <= Len(s) THEN [st |-> "bad", q |-> << >>] ELSE [st |-> "ok", q |-> r.v]
HasLead(q) == \E i \in DOMAIN q : q[i][1].c # " "

(* ------------------- one way to write a selector down ------------------- *)
RECURSIVE Escape(_)
Escape(v) == IF v = "" THEN "" ELSE (IF Ch(v, 1) \in Body THEN Ch(v, 1) ELSE "\\" \o Ch(v, 1)) \o Escape(SubSeq(v, 2, Len(v)))
Quote(v) == IF HasSub(v, "'") THEN "\"" \o v \o "\"" ELSE "'" \o v \o "'"
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN Ch(DigitS, n + 1) ELSE NatText(n \div 10) \o Ch(DigitS, (n % 10) + 1)
SignText(n) == IF n < 0 THEN "-" \o NatText(-n) ELSE "+" \o NatText(n)
RECURSIVE Write(_), WriteSimple(_)
WriteSimple(x) ==
  CASE x.s = "any" -> "*"
    [] x.s = "tag" -> Escape(x.v)
    [] x.s = "id" -> "#" \o Escape(x.v)
    [] x.s = "class" -> "." \o Escape(x.v)
    [] x.s = "attr" -> "[" \o x.n \o (IF x.o = "" THEN "" ELSE x.o \o Quote(x.v)) \o "]"
    [] x.s \in NthNames -> ":" \o x.s \o "(" \o (IF x.a = 0 THEN SignText(x.b) ELSE SignText(x.a) \o "n" \o SignText(x.b)) \o ")"
    [] x.s = "contains" -> ":contains(" \o Quote(x.v) \o ")"
    [] x.s \in {"not", "has"} -> ":" \o x.s \o "(" \o Write(x.g) \o ")"
    [] OTHER -> ":" \o x.s
WriteComp(x, first) == (IF first /\ x.c = " " THEN "" ELSE x.c) \o Concat([i \in DOMAIN x.m |-> WriteSimple(x.m[i])])
Write(q) == Join([i \in DOMAIN q |-> Concat([j \in DOMAIN q[i] |-> WriteComp(q[i][j], j = 1)])], ",")
(* what is written reads back as the same selector *)
RoundTrip(s) == LET p == Parse(s) IN p.st = "ok" => Parse(Write(p.q)) = p
(* blanks around a selector, a comma or a combinator mean nothing *)
BlankLaw(s) == Parse(" " \o s \o "\n") = Parse(s)
=============================================================================
