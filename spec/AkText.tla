------------------------------- MODULE AkText -------------------------------
(* String helpers shared by all modules. Strings are handled as sequences of
   characters (TLC supports Len, \o and SubSeq on strings). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)

IsSpace(c) == c \in {" ", "\t", "\n", "\r", "\f"}

RECURSIVE JoinStr(_, _)
JoinStr(q, sep) ==
  IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinStr(Tail(q), sep)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* First position >= i at which c occurs in s, or 0
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)

HasSub(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

\* Position of the last occurrence of c in s, or 0
RECURSIVE LastIdx(_, _, _)
LastIdx(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastIdx(s, c, i - 1)

\* Words of s separated by whitespace
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, acc) ==
  IF i > Len(s) THEN (IF acc = "" THEN <<>> ELSE <<acc>>)
  ELSE IF IsSpace(Ch(s, i))
    THEN (IF acc = "" THEN <<>> ELSE <<acc>>) \o WordsFrom(s, i + 1, "")
    ELSE WordsFrom(s, i + 1, acc \o Ch(s, i))
Words(s) == WordsFrom(s, 1, "")

\* Pieces of s between separators c (empty pieces kept)
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, i, acc) ==
  IF i > Len(s) THEN <<acc>>
  ELSE IF Ch(s, i) = c THEN <<acc>> \o SplitFrom(s, c, i + 1, "")
  ELSE SplitFrom(s, c, i + 1, acc \o Ch(s, i))
Split(s, c) == SplitFrom(s, c, 1, "")

RECURSIVE FlatSeq(_)
FlatSeq(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o FlatSeq(Tail(q))

Range1(q) == {q[i] : i \in 1..Len(q)}

=============================================================================
