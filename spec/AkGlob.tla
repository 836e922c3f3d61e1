------------------------------- MODULE AkGlob -------------------------------
(* Names of files by patterns: * ? [abc] [!abc] [a-c] \x; leading dots are matched by dots only; results of a pattern   *)
(* are sorted, results of patterns follow each other.                                                                  *)
(* A tree is a set of paths: sequences of names; Folders are those of them which are folders.                          *)
EXTENDS AkText

Order == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Pos(c) == FindFrom(Order, c, 1)
RECURSIVE Less(_, _)
Less(a, b) == IF a = "" THEN b # "" ELSE IF b = "" THEN FALSE
              ELSE IF Ch(a, 1) = Ch(b, 1) THEN Less(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))) ELSE Pos(Ch(a, 1)) < Pos(Ch(b, 1))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ Less(x, y) IN <<m>> \o Sorted(S \ {m})

\* The end of the class which starts at i, or 0: "]" just after the start is its member
CloseOf(p, i) == LET k == IF i + 1 <= Len(p) /\ Ch(p, i + 1) \in {"!", "^"} THEN i + 2 ELSE i + 1 IN FindFrom(p, "]", k + 1)
RECURSIVE InClass(_, _, _, _)
InClass(p, k, e, c) ==
  IF k >= e THEN FALSE
  ELSE IF k + 2 < e /\ Ch(p, k + 1) = "-" THEN (Pos(Ch(p, k)) <= Pos(c) /\ Pos(c) <= Pos(Ch(p, k + 2))) \/ InClass(p, k + 3, e, c)
  ELSE Ch(p, k) = c \/ InClass(p, k + 1, e, c)
RECURSIVE Match(_, _, _, _)
Match(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE LET c == Ch(p, i)
           hidden == j = 1 /\ j <= Len(s) /\ Ch(s, 1) = "."
       IN CASE c = "*" -> ~hidden /\ \E k \in j..Len(s) + 1 : Match(p, i + 1, s, k)
            [] c = "?" -> ~hidden /\ j <= Len(s) /\ Match(p, i + 1, s, j + 1)
            [] c = "[" /\ CloseOf(p, i) > 0 ->
                 LET e == CloseOf(p, i)
                     neg == Ch(p, i + 1) \in {"!", "^"}
                 IN ~hidden /\ j <= Len(s) /\ (InClass(p, IF neg THEN i + 2 ELSE i + 1, e, Ch(s, j)) # neg) /\ Match(p, e + 1, s, j + 1)
            [] c = "\\" /\ i < Len(p) -> j <= Len(s) /\ Ch(s, j) = Ch(p, i + 1) /\ Match(p, i + 2, s, j + 1)
            [] OTHER -> j <= Len(s) /\ Ch(s, j) = c /\ Match(p, i + 1, s, j + 1)
Names(p, s) == Match(p, 1, s, 1)

Magic(p) == \E c \in {"*", "?"} : HasSub(p, c) \/ (HasSub(p, "[") /\ CloseOf(p, FindFrom(p, "[", 1)) > 0)
\* Paths below a folder (a sequence of names) which match the rest of pattern; results are texts
RECURSIVE Below(_, _, _, _)
Below(T, dir, segs, pre) ==
  LET p == Head(segs)
      last == Len(segs) = 1
      sep == IF pre = "" \/ EndsWith(pre, "/") THEN pre ELSE pre \o "/"
      \* . and .. are in all folders
      nms == {q[Len(dir) + 1] : q \in {q \in T.all : Len(q) = Len(dir) + 1 /\ SubSeq(q, 1, Len(dir)) = dir}} \cup {".", ".."}
      to(n) == IF n = "." THEN dir ELSE IF n = ".." THEN (IF dir = <<>> THEN dir ELSE SubSeq(dir, 1, Len(dir) - 1)) ELSE Append(dir, n)
      fits == {n \in nms : Names(p, n)}
  IN IF p = "" THEN (IF last THEN {sep} ELSE Below(T, dir, Tail(segs), sep))    \* d/ is a folder itself
     ELSE IF last THEN {sep \o n : n \in fits}
     ELSE UNION {Below(T, to(n), Tail(segs), sep \o n) : n \in {n \in fits : to(n) = <<>> \/ to(n) \in T.folders}}
Glob1(T, cwd, p) == Sorted(Below(T, cwd, Split(p, "/"), ""))
Glob(T, cwd, ps) == FlatSeq([i \in 1..Len(ps) |-> Glob1(T, cwd, ps[i])])
=============================================================================
