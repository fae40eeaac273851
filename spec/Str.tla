------------------------------- MODULE Str -------------------------------
(* Strings as the specification needs them.  TLC evaluates Len, SubSeq and *)
(* \o on strings; everything else is defined here from those three.        *)
EXTENDS Naturals, Sequences, FiniteSets

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasSub(s, p)     == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
Ch(s, i)         == SubSeq(s, i, i)

IsWs(c) == c \in {" ", "\t", "\n", "\r", "\f"}

(* the white space separated words of a string, in order *)
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, b) ==   \* b: start of the current word, 0 if none
  IF i > Len(s) THEN IF b = 0 THEN << >> ELSE << SubSeq(s, b, Len(s)) >>
  ELSE IF IsWs(Ch(s, i))
       THEN IF b = 0 THEN WordsFrom(s, i + 1, 0)
            ELSE << SubSeq(s, b, i - 1) >> \o WordsFrom(s, i + 1, 0)
       ELSE WordsFrom(s, i + 1, IF b = 0 THEN i ELSE b)
Words(s) == WordsFrom(s, 1, 0)
WordSet(s) == LET w == Words(s) IN { w[i] : i \in DOMAIN w }

RECURSIVE JoinFrom(_, _, _)
JoinFrom(w, sep, i) ==
  IF i > Len(w) THEN "" ELSE IF i = Len(w) THEN w[i]
  ELSE w[i] \o sep \o JoinFrom(w, sep, i + 1)
Join(w, sep) == JoinFrom(w, sep, 1)

RECURSIVE ConcatFrom(_, _)
ConcatFrom(w, i) == IF i > Len(w) THEN "" ELSE w[i] \o ConcatFrom(w, i + 1)
Concat(w) == ConcatFrom(w, 1)

IsBlank(s) == \A i \in 1..Len(s) : IsWs(Ch(s, i))

UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperC == { Ch(UpperS, i) : i \in 1..26 }
LowerOf(c) == IF c \in UpperC
              THEN Ch(LowerS, CHOOSE i \in 1..26 : Ch(UpperS, i) = c) ELSE c
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerOf(Ch(s, i)) \o LowerFrom(s, i + 1)
HasUpper(s) == \E i \in 1..Len(s) : Ch(s, i) \in UpperC
Lower(s) == IF HasUpper(s) THEN LowerFrom(s, 1) ELSE s

(* Character references: the ones the specification knows. *)
Entities == << <<"&lt;", "<">>, <<"&gt;", ">">>, <<"&amp;", "&">>, <<"&quot;", "\"">>,
               <<"&apos;", "'">>, <<"&#39;", "'">>, <<"&#65;", "A">>, <<"&#x42;", "B">>,
               <<"&#60;", "<">>, <<"&#38;", "&">>, <<"&#34;", "\"">>, <<"&#62;", ">">>,
               <<"&#x27;", "'">>, <<"&#x22;", "\"">>, <<"&#x3c;", "<">>, <<"&#x3C;", "<">>,
               <<"&#x3e;", ">">>, <<"&#x3E;", ">">>, <<"&#x26;", "&">> >>
EntAt(s, i) == { j \in DOMAIN Entities :
                   LET e == Entities[j][1] IN SubSeq(s, i, IF i + Len(e) - 1 > Len(s) THEN Len(s) ELSE i + Len(e) - 1) = e }
RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) # "&" THEN Ch(s, i) \o DecodeFrom(s, i + 1)
  ELSE LET es == EntAt(s, i) IN
       IF es = {} THEN "&" \o DecodeFrom(s, i + 1)
       ELSE LET e == Entities[CHOOSE j \in es : TRUE] IN e[2] \o DecodeFrom(s, i + Len(e[1]))
Decode(s) == IF HasSub(s, "&") THEN DecodeFrom(s, 1) ELSE s

(* source text that is safe as the content of an element: reparsing gives the same text *)
Escaped(s) == /\ ~HasSub(s, "<")
              /\ \A i \in 1..Len(s) : Ch(s, i) = "&" => EntAt(s, i) # {}

Range(f) == { f[i] : i \in DOMAIN f }
RECURSIVE FlattenFrom(_, _)
FlattenFrom(ss, i) == IF i > Len(ss) THEN << >> ELSE ss[i] \o FlattenFrom(ss, i + 1)
Flat(ss) == FlattenFrom(ss, 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IndexIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
IsUniq(s) == Cardinality(Range(s)) = Len(s)
=============================================================================
