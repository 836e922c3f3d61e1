----------------------------- MODULE AkTemplate -----------------------------
(***************************************************************************)
(* Expansion of templates by configure{}.                                  *)
(*                                                                         *)
(* A template is read piece by piece. Pieces are "@", a newline, blanks,   *)
(* a double quote, "//autarkdef" and opaque words; a word is a name of     *)
(* some text without blanks, quotes and @, so a word may stand for a text  *)
(* of any length. Variables are sequences of values: <<v>> or a list.      *)
(***************************************************************************)
EXTENDS AkText, SequencesExt

VARIABLES tpl,   \* pieces which were read
          vs,    \* variables: name -> Seq of values
          line,  \* pieces of the current line
          out,   \* result: Seq of pieces
          used,  \* names of variables the result depends on
          eof
tvars == <<tpl, vs, line, out, used, eof>>

Blanks == {" ", "\t", "\r", "\n", "\f"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

Concat(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
Defined(e, n) == n \in DOMAIN e
Value(e, n) == IF Defined(e, n) THEN <<JoinStr(e[n], " ")>> ELSE <<>>

\* First position >= i of a piece which is (want) or is not in S, or Len + 1
RECURSIVE First(_, _, _, _)
First(q, i, S, want) == IF i > Len(q) THEN Len(q) + 1 ELSE IF (q[i] \in S) = want THEN i ELSE First(q, i + 1, S, want)

-----------------------------------------------------------------------------
(* Directives *)
IsDirective(q) == Len(q) >= 2 /\ q[1] = "//autarkdef" /\ q[2] = " "

\* [key, rest]: name of the variable and pieces after it
Directive(q) ==
  LET a == First(q, 2, Blanks, FALSE)
      b == First(q, a, Blanks, TRUE)
      c == First(q, b, Blanks, FALSE)
  IN [key |-> Concat(SubSeq(q, a, b - 1)), rest |-> SubSeq(q, c, Len(q))]

ExpandDirective(e, q) ==
  LET d == Directive(q)
      v == Value(e, d.key)
  IN IF d.rest # <<>> /\ Ch(d.rest[1], 1) \in Digits
     THEN IF v = <<>> THEN <<"#define ", d.key, " 0\n">> ELSE <<"#define ", d.key, " ">> \o d.rest
     ELSE IF v = <<>> THEN q
     ELSE IF d.rest # <<>> /\ d.rest[1] = "\"" THEN <<"#define ", d.key, " \"">> \o v \o <<"\"\n">>
     ELSE <<"#define ", d.key, "\n">>

-----------------------------------------------------------------------------
(* References *)
RECURSIVE ExpandRefs(_, _)
ExpandRefs(e, q) ==
  LET i == First(q, 1, {"@"}, TRUE)
      j == First(q, i + 1, {"@"}, TRUE)
  IN IF j > Len(q) THEN q
     ELSE SubSeq(q, 1, i - 1) \o Value(e, Concat(SubSeq(q, i + 1, j - 1))) \o ExpandRefs(e, SubSeq(q, j + 1, Len(q)))

RECURSIVE RefsOf(_)
RefsOf(q) ==
  LET i == First(q, 1, {"@"}, TRUE)
      j == First(q, i + 1, {"@"}, TRUE)
  IN IF j > Len(q) THEN {} ELSE {Concat(SubSeq(q, i + 1, j - 1))} \cup RefsOf(SubSeq(q, j + 1, Len(q)))

ExpandLine(e, q) == IF IsDirective(q) THEN ExpandDirective(e, q) ELSE ExpandRefs(e, q)
UsedIn(q) == IF IsDirective(q) THEN {Directive(q).key} ELSE RefsOf(q)

-----------------------------------------------------------------------------
(* Transitions *)
Init0(e) == tpl = <<>> /\ vs = e /\ line = <<>> /\ out = <<>> /\ used = {} /\ eof = FALSE

Flush(q) == line' = <<>> /\ out' = out \o ExpandLine(vs, q) /\ used' = used \cup UsedIn(q)

Read(p) ==
  /\ ~eof /\ tpl' = Append(tpl, p)
  /\ IF p = "\n" THEN Flush(Append(line, p)) ELSE line' = Append(line, p) /\ UNCHANGED <<out, used>>
  /\ UNCHANGED <<vs, eof>>

End ==
  /\ ~eof /\ eof' = TRUE
  /\ IF line = <<>> THEN UNCHANGED <<line, out, used>> ELSE Flush(line)
  /\ UNCHANGED <<tpl, vs>>

-----------------------------------------------------------------------------
(* The whole template at once *)
RECURSIVE Expand(_, _)
Expand(e, q) ==
  LET i == First(q, 1, {"\n"}, TRUE)
  IN IF q = <<>> THEN <<>> ELSE IF i > Len(q) THEN ExpandLine(e, q)
     ELSE ExpandLine(e, SubSeq(q, 1, i)) \o Expand(e, SubSeq(q, i + 1, Len(q)))

\* Lines do not influence each other
Lines == eof => out = Expand(vs, tpl)

\* A text without references and directives is copied as it is
Special(q) == (\E i \in 1..Len(q) : q[i] = "//autarkdef") \/ Cardinality({i \in 1..Len(q) : q[i] = "@"}) >= 2
Verbatim == eof /\ ~Special(tpl) => out = tpl

\* Declarative meaning of references: every piece of a line is either kept or is inside of a pair of @
AtsBefore(q, i) == Cardinality({k \in 1..(i - 1) : q[k] = "@"})
Ats(q) == Cardinality({k \in 1..Len(q) : q[k] = "@"})
Inside(q, i) == LET n == AtsBefore(q, i) IN
  IF q[i] = "@" THEN n + 1 < Ats(q) \/ n % 2 = 1 ELSE n % 2 = 1 /\ n < Ats(q)
\* Pieces of out which were not inserted, in order
RECURSIVE Kept(_, _)
Kept(q, i) == IF i > Len(q) THEN <<>> ELSE (IF Inside(q, i) THEN <<>> ELSE <<q[i]>>) \o Kept(q, i + 1)
Pairs == ~IsDirective(line) => ExpandRefs([x \in {} |-> <<>>], line) = Kept(line, 1)

\* Only used variables matter
OnlyUsed(Envs) == eof => \A e \in Envs :
  (\A n \in used : Value(e, n) = Value(vs, n)) => Expand(e, tpl) = out
=============================================================================
