-------------------------------- MODULE Text --------------------------------
(* Text as TLA+ strings.  TLC's Sequences module accepts strings for Len,     *)
(* SubSeq and \o; everything else that the specification needs is built here. *)
EXTENDS Naturals, Sequences, FiniteSets

At(s, i) == SubSeq(s, i, i)

\* The part of s from position i to position j, empty when i > j.
Sub(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, j)
From(s, i)   == Sub(s, i, Len(s))
Upto(s, j)   == Sub(s, 1, j)

Last(s) == At(s, Len(s))          \* s # ""

HasPrefix(s, p) == Len(s) >= Len(p) /\ Sub(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ Sub(s, Len(s) - Len(p) + 1, Len(s)) = p

\* First position >= i whose character is in set cs; Len(s)+1 when there is none.
\* (In pieces: TLC's recursion must not become as deep as texts can be long.)
Piece == 250
RECURSIVE FindInSmall(_, _, _)
FindInSmall(s, i, cs) ==
  IF i > Len(s) THEN Len(s) + 1
  ELSE IF At(s, i) \in cs THEN i ELSE FindInSmall(s, i + 1, cs)
RECURSIVE FindIn(_, _, _)
FindIn(s, i, cs) ==
  IF Len(s) - i < Piece THEN FindInSmall(s, i, cs)
  ELSE LET j == FindInSmall(SubSeq(s, i, i + Piece - 1), 1, cs)
       IN IF j <= Piece THEN i + j - 1 ELSE FindIn(s, i + Piece, cs)

\* First position >= i whose character is not in cs; Len(s)+1 when there is none.
RECURSIVE FindNotIn(_, _, _)
FindNotIn(s, i, cs) ==
  IF i > Len(s) THEN Len(s) + 1
  ELSE IF At(s, i) \notin cs THEN i ELSE FindNotIn(s, i + 1, cs)

\* Last position <= i whose character is not in cs; 0 when there is none.
RECURSIVE FindLastNotIn(_, _, _)
FindLastNotIn(s, i, cs) ==
  IF i < 1 THEN 0
  ELSE IF At(s, i) \notin cs THEN i ELSE FindLastNotIn(s, i - 1, cs)

\* 0 when c does not occur.
Index(s, c) == LET i == FindIn(s, 1, {c}) IN IF i > Len(s) THEN 0 ELSE i
Has(s, c)   == Index(s, c) # 0

\* The position of the last c in s, 0 if there is none.
RECURSIVE LastIndexFrom(_, _, _)
LastIndexFrom(s, c, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = c THEN i ELSE LastIndexFrom(s, c, i - 1)
LastIndex(s, c) == LastIndexFrom(s, c, Len(s))

Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : Sub(s, i, i + Len(t) - 1) = t

Blank == {" ", "\t", "\n", "\r"}
Trim(s) == LET a == FindNotIn(s, 1, Blank)
               b == FindLastNotIn(s, Len(s), Blank)
           IN Sub(s, a, b)
TrimRight(s, cs) == Upto(s, FindLastNotIn(s, Len(s), cs))

RECURSIVE SplitAt(_, _, _)
SplitAt(s, c, i) ==
  LET j == FindIn(s, i, {c})
  IN IF j > Len(s) THEN << From(s, i) >>
     ELSE << Sub(s, i, j - 1) >> \o SplitAt(s, c, j + 1)
Split(s, c) == SplitAt(s, c, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) ==
  IF i > Len(q) THEN ""
  ELSE IF i = Len(q) THEN q[i]
  ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)

\* The whitespace separated fields of s.
RECURSIVE FieldsAt(_, _)
FieldsAt(s, i) ==
  LET a == FindNotIn(s, i, Blank)
  IN IF a > Len(s) THEN <<>>
     ELSE LET b == FindIn(s, a, Blank) IN << Sub(s, a, b - 1) >> \o FieldsAt(s, b)
Fields(s) == FieldsAt(s, 1)

LowerOf ==
  [ A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g",
    H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n",
    O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u",
    V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z" ]
Uppers == DOMAIN LowerOf

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) ==
  LET j == FindIn(s, i, Uppers)
  IN IF j > Len(s) THEN From(s, i)
     ELSE Sub(s, i, j - 1) \o LowerOf[At(s, j)] \o LowerFrom(s, j + 1)
Lower(s) == LowerFrom(s, 1)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexVal(c) ==
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
    [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
    [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}

AllIn(s, cs) == \A i \in 1..Len(s) : At(s, i) \in cs

RECURSIVE NumFrom(_, _, _, _)
NumFrom(s, i, base, acc) ==
  IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, base, acc * base + HexVal(At(s, i)))
DecNum(s) == NumFrom(s, 1, 10, 0)      \* s consists of (at most nine) digits
HexNum(s) == NumFrom(s, 1, 16, 0)

DigitStr == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN DigitStr[n + 1] ELSE Dec(n \div 10) \o DigitStr[(n % 10) + 1]

\* Sequences of lines: the pieces of s separated by newlines; a final newline
\* does not start another (empty) line.
Lines(s) ==
  IF s = "" THEN <<>>
  ELSE LET q == Split(s, "\n") IN IF Last(s) = "\n" THEN SubSeq(q, 1, Len(q) - 1) ELSE q

SeqToSet(q) == {q[i] : i \in DOMAIN q}
Max(a, b) == IF a > b THEN a ELSE b
=============================================================================
