------------------------------ MODULE AkPlace ------------------------------
(***************************************************************************)
(* Where a build works: how the project folder and the cache folder are    *)
(* found, refused, cleaned and filled.                                     *)
(*                                                                         *)
(* Files are a function: path -> node, a path is a sequence of names.      *)
(* Node: [k |-> "d"] folder, [k |-> "f"] file, [k |-> "l", to |-> path].   *)
(* A run is given by:                                                      *)
(*   dir:   path naming the project folder, may lead through links         *)
(*   h:     name of the cache: [abs |-> BOOLEAN, q |-> sequence of names,  *)
(*          "." and ".." included]                                         *)
(*   clean: the cache has to be cleaned first                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  files,   \* current files
  given,   \* the run: [dir, h, clean]
  before,  \* files before the run
  step,    \* "start" | "mkdirs" | "check" | "clean" | "build" | "end"
  root, cache,  \* real paths
  result   \* "none" | "ok" | "refused" | "fail"
pvars == <<files, given, before, step, root, cache, result>>

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Front(p, n) == SubSeq(p, 1, n)

\* Follows names and links. Found: [ok |-> TRUE, p |-> real path]; the first missing name otherwise
RECURSIVE Walk(_, _, _, _)
Walk(f, done, rest, fuel) ==
  IF rest = <<>> THEN [ok |-> TRUE, p |-> done]
  ELSE LET n == Append(done, Head(rest))
       IN IF fuel = 0 THEN [ok |-> FALSE, p |-> n]
          ELSE IF n \notin DOMAIN f THEN [ok |-> FALSE, p |-> n]
          ELSE IF f[n].k = "l" THEN Walk(f, <<>>, f[n].to \o Tail(rest), fuel - 1)
          ELSE IF f[n].k = "f" /\ Tail(rest) # <<>> THEN [ok |-> FALSE, p |-> n]
          ELSE Walk(f, n, Tail(rest), fuel)
Real(f, p) == Walk(f, <<>>, p, 12)

\* "." and ".." are dropped by the text of a path
RECURSIVE Norm(_, _)
Norm(acc, q) ==
  IF q = <<>> THEN acc
  ELSE CASE Head(q) = "." -> Norm(acc, Tail(q))
         [] Head(q) = ".." -> Norm(IF acc = <<>> THEN acc ELSE Parent(acc), Tail(q))
         [] OTHER -> Norm(Append(acc, Head(q)), Tail(q))
Named == IF given.h.abs THEN Norm(<<>>, given.h.q) ELSE Norm(root, given.h.q)

\* Folders which are missing on the way: <<>> if they cannot be created
RECURSIVE Mkdirs(_, _, _)
Mkdirs(f, p, n) ==
  IF n > Len(p) THEN <<f>>
  ELSE IF Real(f, Front(p, n)).ok THEN Mkdirs(f, p, n + 1)
  ELSE LET up == Real(f, Front(p, n - 1))
           new == Append(up.p, p[n])
       IN IF new \in DOMAIN f THEN <<>>   \* a link which leads nowhere
          ELSE IF up.p # <<>> /\ f[up.p].k # "d" THEN <<>>
          ELSE Mkdirs([q \in DOMAIN f \cup {new} |-> IF q = new THEN [k |-> "d"] ELSE f[q]], p, n + 1)

Run0(f, g) ==
  /\ files = f /\ before = f /\ given = g
  /\ step = "start" /\ root = <<>> /\ cache = <<>> /\ result = "none"

Stop(r) == step' = "end" /\ result' = r

FindRoot ==
  /\ step = "start"
  /\ LET r == Real(files, given.dir)
     IN IF r.ok /\ r.p # <<>> /\ Append(r.p, "Autark") \in DOMAIN files
        THEN root' = r.p /\ step' = "mkdirs" /\ UNCHANGED <<files, given, before, cache, result>>
        ELSE Stop("fail") /\ UNCHANGED <<files, given, before, root, cache>>

MakeCache ==
  /\ step = "mkdirs"
  /\ LET m == Mkdirs(files, Named, 1)
     IN IF m = <<>> THEN Stop("fail") /\ UNCHANGED <<files, given, before, root, cache>>
        ELSE /\ files' = m[1] /\ cache' = Real(m[1], Named).p /\ step' = "check"
             /\ UNCHANGED <<given, before, root, result>>

\* The project folder and folders around it are not for building
Check ==
  /\ step = "check"
  /\ IF cache # <<>> /\ files[cache].k # "d" THEN Stop("fail") /\ UNCHANGED <<files, given, before, root, cache>>
     ELSE IF IsPrefix(cache, root) THEN Stop("refused") /\ UNCHANGED <<files, given, before, root, cache>>
     ELSE step' = "clean" /\ UNCHANGED <<files, given, before, root, cache, result>>

\* Links in the cache are removed, not what they lead to
Clean ==
  /\ step = "clean" /\ step' = "build"
  /\ files' = IF given.clean THEN [q \in {q \in DOMAIN files : q = cache \/ ~IsPrefix(cache, q)} |-> files[q]] ELSE files
  /\ UNCHANGED <<given, before, root, cache, result>>

Build ==
  /\ step = "build" /\ Stop("ok")
  /\ LET p == Append(cache, "out")
     IN files' = [q \in DOMAIN files \cup {p} |-> IF q = p THEN [k |-> "f"] ELSE files[q]]
  /\ UNCHANGED <<given, before, root, cache>>

PNext == FindRoot \/ MakeCache \/ Check \/ Clean \/ Build

----------------------------------------------------------------------------
\* Properties

\* Only the content of the cache is removed
Kept == \A q \in DOMAIN before : (q \in DOMAIN files /\ files[q] = before[q]) \/ (cache # q /\ IsPrefix(cache, q) /\ given.clean /\ result # "refused")
\* Only the cache, folders around it and the content of the cache are created
Inside == \A q \in DOMAIN files \ DOMAIN before :
            \/ (step \in {"check", "clean", "build"} \/ result \in {"ok", "refused", "fail"}) /\ files[q].k = "d"
            \/ (cache # q /\ IsPrefix(cache, q))
\* Sources are safe unless the cache was put right among them
Sources == (root # <<>> /\ ~IsPrefix(root, cache)) => \A q \in DOMAIN before : IsPrefix(root, q) => (q \in DOMAIN files \/ IsPrefix(cache, q))
\* The script of the project is never lost
Script == root # <<>> => Append(root, "Autark") \in DOMAIN files
Refused == result = "ok" => ~IsPrefix(cache, root)
=============================================================================
