------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* Character level helpers.  TLC evaluates Len, SubSeq and \o on strings.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
  "r","s","t","u","v","w","x","y","z","A","B","C","D","E","F","G","H","I","J",
  "K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
IdStart == Letters
IdBody == Letters \cup Digits

Chr(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Chr(s, i)]

\* The names that may be used for Python entities.
ValidIdentifier(s) ==
  /\ Len(s) > 0
  /\ Chr(s, 1) \in IdStart
  /\ \A i \in 2..Len(s) : Chr(s, i) \in IdBody

StartsWith(s, prefix) ==
  Len(prefix) <= Len(s) /\ SubSeq(s, 1, Len(prefix)) = prefix
EndsWith(s, suffix) ==
  Len(suffix) <= Len(s) /\ SubSeq(s, Len(s) - Len(suffix) + 1, Len(s)) = suffix

(***************************************************************************)
(* Turn an arbitrary text into an identifier: every maximal run of invalid *)
(* characters becomes one underscore (digits are invalid at the start).    *)
(***************************************************************************)
RECURSIVE Ident(_, _, _, _)
Ident(s, i, out, gap) ==
  IF i > Len(s) THEN IF gap THEN out \o "_" ELSE out
  ELSE LET c == Chr(s, i)
           atStart == out = ""
           ok == IF atStart THEN c \in IdStart ELSE c \in IdBody
       IN IF ok THEN Ident(s, i + 1, (IF gap THEN out \o "_" ELSE out) \o c, FALSE)
          ELSE Ident(s, i + 1, out, TRUE)
MakeIdentifier(s) == Ident(s, 1, "", FALSE)
=============================================================================
