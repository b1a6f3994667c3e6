------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The text of an annotation: characters -> tokens -> annotations.         *)
(* A parse is [ok, anns]; an annotation is [n, a] with literals [t, v]     *)
(* where t is "s" (string), "n" (unsigned), "b" (boolean) or "d" (default).*)
(***************************************************************************)
EXTENDS Strings

Blank == {" ", "\t", "\f"}
AnnotationNames == {"arithmetic", "dynamic_attr", "encourage", "export_values", "expose_as", "expose_here",
  "getter_for", "hidden", "hide_base", "holder_type", "implicit_conversion", "inline_base", "keep_alive",
  "manual", "module", "noconvert", "only_expose_in", "postamble", "readonly", "required",
  "return_value_policy", "setter_for", "visible"}

RECURSIVE Span(_, _, _), CloseQuote(_, _), NoZeros(_), NotAbove(_, _, _)
\* The end of the longest run of characters from `set` starting at i.
Span(s, i, set) == IF i <= Len(s) /\ Chr(s, i) \in set THEN Span(s, i + 1, set) ELSE i - 1
\* The position of the quote that ends a string (0 if there is none).
CloseQuote(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF Chr(s, i) = "\\" THEN CloseQuote(s, i + 2)
  ELSE IF Chr(s, i) = "\"" THEN i ELSE CloseQuote(s, i + 1)

NoZeros(s) == IF Len(s) > 1 /\ Chr(s, 1) = "0" THEN NoZeros(SubSeq(s, 2, Len(s))) ELSE s
DigitValue(c) == CHOOSE m \in 0..9 : ToString(m) = c
\* Equally long numbers.
NotAbove(s, t, i) ==
  i > Len(s) \/ DigitValue(Chr(s, i)) < DigitValue(Chr(t, i))
  \/ (Chr(s, i) = Chr(t, i) /\ NotAbove(s, t, i + 1))
MaxUnsigned == "4294967295"
FitsUnsigned(s) ==
  LET m == NoZeros(s) IN Len(m) < Len(MaxUnsigned) \/ (Len(m) = Len(MaxUnsigned) /\ NotAbove(m, MaxUnsigned, 1))

Tok(t, v) == [t |-> t, v |-> v]
Bad == Tok("bad", "")
RECURSIVE Tokens(_, _)
Tokens(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == Chr(s, i) IN
  IF c \in Blank THEN Tokens(s, i + 1)
  ELSE IF c \in {"(", ")", ","} THEN <<Tok(c, c)>> \o Tokens(s, i + 1)
  ELSE IF c \in Digits
  THEN LET e == Span(s, i, Digits)  v == SubSeq(s, i, e) IN
       <<IF FitsUnsigned(v) THEN Tok("n", NoZeros(v)) ELSE Bad>> \o Tokens(s, e + 1)
  ELSE IF c = "\""
  THEN LET e == CloseQuote(s, i + 1) IN
       IF e = 0 THEN <<Bad>> ELSE <<Tok("s", SubSeq(s, i + 1, e - 1))>> \o Tokens(s, e + 1)
  ELSE IF c \in IdStart
  THEN LET e == Span(s, i, IdBody) IN <<Tok("id", SubSeq(s, i, e))>> \o Tokens(s, e + 1)
  ELSE <<Bad>> \o Tokens(s, i + 1)

At(ts, i) == IF i <= Len(ts) THEN ts[i].t ELSE "eof"
Literal(t) ==
  IF t.t # "id" THEN Tok(t.t, t.v)
  ELSE IF t.v \in {"true", "false"} THEN Tok("b", t.v)
  ELSE IF t.v = "default" THEN Tok("d", t.v) ELSE Tok("s", t.v)

NoParse == [ok |-> FALSE, anns |-> <<>>]
RECURSIVE Arguments(_, _, _), Annotations(_, _, _)
\* [ok, next, args]; i is behind the opening parenthesis or a comma
Arguments(ts, i, args) ==
  IF At(ts, i) = ")" THEN [ok |-> TRUE, next |-> i + 1, args |-> args]
  ELSE IF At(ts, i) \notin {"id", "n", "s"} THEN [ok |-> FALSE, next |-> i, args |-> args]
  ELSE LET more == Append(args, Literal(ts[i])) IN
       IF At(ts, i + 1) = "," THEN Arguments(ts, i + 2, more)
       ELSE [ok |-> At(ts, i + 1) = ")", next |-> i + 2, args |-> more]
Annotations(ts, i, anns) ==
  IF At(ts, i) = "eof" THEN [ok |-> TRUE, anns |-> anns]
  ELSE IF At(ts, i) # "id" \/ ts[i].v \notin AnnotationNames THEN NoParse
  ELSE LET r == IF At(ts, i + 1) = "(" THEN Arguments(ts, i + 2, <<>>)
                ELSE [ok |-> TRUE, next |-> i + 1, args |-> <<>>]
           more == Append(anns, [n |-> ts[i].v, a |-> r.args])
       IN IF ~r.ok THEN NoParse
          ELSE IF At(ts, r.next) = "," THEN Annotations(ts, r.next + 1, more)
          ELSE IF At(ts, r.next) = "eof" THEN [ok |-> TRUE, anns |-> more] ELSE NoParse

ParseText(s) == Annotations(Tokens(s, 1), 1, <<>>)

\* A canonical way of writing annotations down.
RECURSIVE Joined(_, _)
Joined(ss, i) == IF i > Len(ss) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o ss[i] \o Joined(ss, i + 1)
WriteLiteral(x) == IF x.t = "s" THEN "\"" \o x.v \o "\"" ELSE x.v
WriteAnnotation(an) ==
  an.n \o "(" \o Joined([i \in DOMAIN an.a |-> WriteLiteral(an.a[i])], 1) \o ")"
WriteText(anns) == Joined([i \in DOMAIN anns |-> WriteAnnotation(anns[i])], 1)

\* Lemma: what is accepted can be written canonically without changing its meaning.
Canonical(s) == LET r == ParseText(s) IN r.ok => ParseText(WriteText(r.anns)) = r
=============================================================================
