------------------------------ MODULE AkSyntax ------------------------------
(* Grammar of Autark scripts: text -> tree.
   A tree is [t |-> "v" (plain value) | "r" (rule), k |-> text or name of the rule, c |-> sequence of trees]. *)
EXTENDS AkText

Sp(c) == c \in {" ", "\t", "\n", "\r"}

\* Comments: lines whose first non-space character is # are empty
RECURSIVE LeadSp(_, _)
LeadSp(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in {" ", "\t", "\r"} THEN LeadSp(s, i + 1) ELSE i
IsComment(l) == LET i == LeadSp(l, 1) IN i <= Len(l) /\ Ch(l, i) = "#"
Uncomment(s) == LET ls == Split(s, "\n") IN JoinStr([i \in 1..Len(ls) |-> IF IsComment(ls[i]) THEN "" ELSE ls[i]], "\n")

RECURSIVE SkipSp(_, _)
SkipSp(s, i) == IF i > Len(s) THEN i ELSE IF Sp(Ch(s, i)) THEN SkipSp(s, i + 1) ELSE i

At(s, i) == IF i > Len(s) THEN "" ELSE Ch(s, i)

Esc(c) == CASE c = "n" -> "\n" [] c = "r" -> "\r" [] c = "t" -> "\t" [] OTHER -> c

\* A word: [p |-> position after it, v |-> text without escapes]
RECURSIVE Word(_, _, _)
Word(s, i, acc) ==
  LET c == At(s, i) IN
  IF c = "" THEN [p |-> i, v |-> acc]
  ELSE IF c = "\\"
    THEN IF At(s, i + 1) \in {"{", "}", "\\", "n", "r", "t"} THEN Word(s, i + 2, acc \o Esc(At(s, i + 1)))
         ELSE [p |-> i, v |-> acc]
  ELSE IF c \in {"{", "}"} \/ Sp(c) THEN [p |-> i, v |-> acc]
  ELSE Word(s, i + 1, acc \o c)

Bad == [p |-> 0, x |-> <<>>]

\* All parsers return [p |-> position after the parsed text or 0, x |-> sequence of trees]
RECURSIVE PValue(_, _), PBody(_, _, _), PAfterWord(_, _, _)

\* Word at i was read as w; a rule if { follows
PAfterWord(s, w, must) ==
  LET j == SkipSp(s, w.p) IN
  IF At(s, j) = "{"
    THEN LET b == PBody(s, SkipSp(s, j + 1), <<>>) IN
         IF b.p = 0 THEN Bad ELSE [p |-> b.p, x |-> <<[t |-> "r", k |-> w.v, c |-> b.x]>>]
  ELSE IF must THEN Bad
  ELSE [p |-> w.p, x |-> <<[t |-> "v", k |-> w.v, c |-> <<>>]>>]

PValue(s, i) ==
  LET c == At(s, i)
      q == IF c \in {"'", "\""} THEN FindFrom(s, c, i + 1) ELSE 0
  IN IF q > 0 THEN [p |-> q + 1, x |-> <<[t |-> "v", k |-> SubSeq(s, i + 1, q - 1), c |-> <<>>]>>]
     ELSE LET w == Word(s, i, "") IN
          IF w.p = i THEN Bad ELSE PAfterWord(s, w, FALSE)

\* i is at the next value or at the closing brace
PBody(s, i, acc) ==
  IF At(s, i) = "}" THEN [p |-> i + 1, x |-> acc]
  ELSE LET v == PValue(s, i) IN
       IF v.p = 0 THEN Bad
       ELSE LET j == SkipSp(s, v.p) IN
            IF At(s, j) = "}" THEN [p |-> j + 1, x |-> acc \o v.x]
            ELSE IF j = v.p THEN Bad          \* values must be separated
            ELSE PBody(s, j, acc \o v.x)

RECURSIVE PRules(_, _, _)
PRules(s, i, acc) ==
  IF i > Len(s) THEN [p |-> i, x |-> acc]
  ELSE LET w == Word(s, i, "") IN
       IF w.p = i THEN Bad
       ELSE LET r == PAfterWord(s, w, TRUE) IN
            IF r.p = 0 THEN Bad ELSE PRules(s, SkipSp(s, r.p), acc \o r.x)

\* [ok, x]
Parse(text) ==
  LET s == Uncomment(text)
      r == PRules(s, SkipSp(s, 1), <<>>)
  IN [ok |-> r.p > 0, x |-> r.x]

-----------------------------------------------------------------------------
(* Canonical text of a tree *)
Special(c) == c \in {"{", "}", "\\"}
RECURSIVE EscapeFrom(_, _)
EscapeFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (CASE Special(Ch(s, i)) -> "\\" \o Ch(s, i)
          [] Ch(s, i) = "\n" -> "\\n" [] Ch(s, i) = "\r" -> "\\r" [] Ch(s, i) = "\t" -> "\\t"
          [] OTHER -> Ch(s, i)) \o EscapeFrom(s, i + 1)
HasCh(s, c) == FindFrom(s, c, 1) > 0
PrintWord(s) ==
  IF s # "" /\ ~HasCh(s, " ") /\ Ch(s, 1) \notin {"'", "\"", "#"} THEN EscapeFrom(s, 1)
  ELSE IF HasCh(s, "'") THEN "\"" \o s \o "\"" ELSE "'" \o s \o "'"
RECURSIVE PrintTree(_)
PrintTree(x) ==
  IF x.t = "v" THEN PrintWord(x.k)
  ELSE EscapeFrom(x.k, 1) \o " {" \o JoinStr([i \in 1..Len(x.c) |-> " " \o PrintTree(x.c[i])], "") \o " }"
PrintAll(xs) == JoinStr([i \in 1..Len(xs) |-> PrintTree(xs[i])], "\n")

=============================================================================
