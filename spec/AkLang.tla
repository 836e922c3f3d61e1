------------------------------- MODULE AkLang -------------------------------
(* Meaning of Autark scripts: the tree of rules, its rewriting in the init phase, environments of scripts,
   values of expressions, and events (printed messages, executed commands) of all phases of a build from scratch.

   The state is one record:
     N     sequence of nodes
     env   sequence (by unit) of functions: name -> [n |-> node or 0, v |-> value or Nil]
     root  root directory of the project
     unit  sequence of directories of scripts relative to the root of the project ("" for the root)
     os    environment variables
     files texts of scripts by path relative to the root
     libs  existing library files, home is the home folder
     ev    events so far
     err   "" or reason of the failure which has ended the build *)
EXTENDS AkSyntax, Integers

Nil == "\f\fnil"
Sep == "\f"                     \* separates elements of lists: a list is Sep a Sep b ...

MaxCalls == 128
MaxArgs == 64

IsList(v) == v # Nil /\ v # "" /\ Ch(v, 1) = Sep
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # "")
Items(v) == NonEmpty(Split(v, Sep))
Str(v) == IF v = Nil THEN "" ELSE v

-----------------------------------------------------------------------------
(* Types of rules *)
StripSpread(k) == IF StartsWith(k, "..") THEN SubSeq(k, 3, Len(k)) ELSE k
StripNeg(k) == IF StartsWith(k, "!") THEN SubSeq(k, 2, Len(k)) ELSE k
RType(k0) ==
  LET k == StripNeg(StripSpread(k0)) IN
  CASE k = "$" -> "var" [] k = "@" -> "proc" [] k = "@@" -> "proc" [] k = "^" -> "join"
    [] k \in {"set", "let", "env"} -> "set" [] k = "include" -> "include" [] k = "if" -> "if"
    [] k = "run" -> "run" [] k = "meta" -> "meta" [] k = "%" -> "base" [] k = "foreach" -> "foreach"
    [] k = "in-sources" -> "insrc" [] k \in {"S", "C", "SS", "CC"} -> "dir" [] k = "option" -> "option"
    [] k = "error" -> "error" [] k = "echo" -> "echo" [] k = "library" -> "find" [] k = "macro" -> "macro"
    [] k = "call" -> "call" [] OTHER -> "bag"
Valued == {"v", "var", "proc", "set", "join", "base", "dir", "find"}

Fresh == [t |-> "v", k |-> "", neg |-> FALSE, ch |-> <<>>, par |-> 0, u |-> 0,
          ini |-> FALSE, stp |-> FALSE, blt |-> FALSE,
          im |-> Nil,                               \* remembered value
          act |-> FALSE, pn |-> 0, pv |-> Nil,      \* set: being evaluated, previous definition
          src |-> FALSE,                            \* commands are executed in sources
          fn |-> "", fi |-> <<>>, fv |-> Nil, fa |-> 0,  \* foreach: name, items, current item, number of uses
          nc |-> 0]                                 \* macro: calls in progress

Node(x, par) ==
  IF x.t = "v" THEN [Fresh EXCEPT !.k = x.k, !.par = par]
  ELSE [Fresh EXCEPT !.t = RType(x.k), !.k = x.k, !.neg = StartsWith(StripSpread(x.k), "!"), !.par = par]

RECURSIVE AddTree(_, _, _, _), AddKids(_, _, _, _, _)
AddKids(N, id, c, i, src) ==
  IF i > Len(c) THEN N
  ELSE LET kid == Len(N) + 1
           M == AddTree(N, c[i], id, src)
       IN AddKids([M EXCEPT ![id].ch = Append(@, kid)], id, c, i + 1, src)
AddTree(N, x, par, src) ==
  LET nd == Node(x, par)
      s2 == src \/ nd.t = "insrc"
  IN AddKids(Append(N, [nd EXCEPT !.src = src]), Len(N) + 1, x.c, 1, s2)

RECURSIVE Tree(_, _)
Tree(N, n) == [t |-> IF N[n].t = "v" THEN "v" ELSE "r", k |-> N[n].k,
               c |-> [i \in 1..Len(N[n].ch) |-> Tree(N, N[n].ch[i])]]

IndexOf(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x

-----------------------------------------------------------------------------
(* Units *)
RECURSIVE UnitOf(_, _)
UnitOf(N, n) == IF N[n].u > 0 THEN N[n].u ELSE UnitOf(N, N[n].par)

\* Unit of the script which has included the script of n
RECURSIVE Above(_, _, _)
Above(N, n, u) == IF n = 0 THEN 1 ELSE IF N[n].u \notin {0, u} THEN N[n].u ELSE Above(N, N[n].par, u)
ParentUnit(N, n) == Above(N, n, UnitOf(N, n))

RECURSIVE AncestorOf(_, _, _)
AncestorOf(N, n, t) == LET p == N[n].par IN IF p = 0 THEN 0 ELSE IF N[p].t = t THEN p ELSE AncestorOf(N, p, t)

\* Values inside of foreach{} and let{} are never remembered
RECURSIVE Volatile(_, _)
Volatile(N, n) ==
  LET p == N[n].par IN
  IF p = 0 THEN FALSE ELSE N[p].t = "foreach" \/ (N[p].k = "let" /\ N[p].t = "set") \/ Volatile(N, p)

CacheOf(root) == root \o "/autark-cache"
UnitEnv(root, dir) == [x \in {"UNIT_DIR", "UNIT_CACHE_DIR"} |->
                         [n |-> 0, v |-> (IF x = "UNIT_DIR" THEN root ELSE CacheOf(root)) \o dir]]

-----------------------------------------------------------------------------
(* Paths *)
RECURSIVE NormSegs(_, _)
NormSegs(q, acc) ==
  IF q = <<>> THEN acc
  ELSE CASE Head(q) \in {"", "."} -> NormSegs(Tail(q), acc)
         [] Head(q) = ".." -> NormSegs(Tail(q), IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
         [] OTHER -> NormSegs(Tail(q), Append(acc, Head(q)))
Norm(p) == "/" \o JoinStr(NormSegs(Split(p, "/"), <<>>), "/")
AbsPath(p, dir) == IF StartsWith(p, "/") THEN Norm(p) ELSE Norm(dir \o "/" \o p)
UDir(st, u) == IF st.unit[u] = "" THEN st.root ELSE st.root \o "/" \o st.unit[u]
UCache(st, u) == IF st.unit[u] = "" THEN CacheOf(st.root) ELSE CacheOf(st.root) \o "/" \o st.unit[u]

RECURSIVE PathCat(_, _)
PathCat(acc, q) ==
  IF q = <<>> THEN acc
  ELSE PathCat(IF acc = "" \/ Head(q) = "" \/ StartsWith(Head(q), "/") \/ EndsWith(acc, "/")
                 THEN acc \o Head(q) ELSE acc \o "/" \o Head(q), Tail(q))

\* Name without the extension
BaseCut(v) ==
  LET d == LastIdx(v, ".", Len(v)) IN IF d > 0 /\ LastIdx(v, "/", Len(v)) < d THEN SubSeq(v, 1, d - 1) ELSE v

-----------------------------------------------------------------------------
(* Words of a text, with quotes and escapes *)
RECURSIVE SplitQ(_, _, _, _, _)
\* inw: inside of a word, q: current quote
SplitQ(s, i, acc, inw, q) ==
  IF i > Len(s) THEN (IF inw THEN <<acc>> ELSE <<>>)
  ELSE LET c == Ch(s, i) IN
       IF c = "\\" THEN SplitQ(s, i + 2, acc \o At(s, i + 1), TRUE, q)
       ELSE IF q # "" THEN (IF c = q THEN SplitQ(s, i + 1, acc, TRUE, "") ELSE SplitQ(s, i + 1, acc \o c, TRUE, q))
       ELSE IF c \in {"'", "\""} THEN SplitQ(s, i + 1, acc, TRUE, c)
       ELSE IF Sp(c) THEN (IF inw THEN <<acc>> ELSE <<>>) \o SplitQ(s, i + 1, "", FALSE, "")
       ELSE SplitQ(s, i + 1, acc \o c, TRUE, "")
SpreadVal(v) ==
  IF IsList(v) THEN v
  ELSE LET ws == SplitQ(v, 1, "", FALSE, "") IN JoinStr([i \in 1..Len(ws) |-> Sep \o ws[i]], "")

RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # "" /\ Sp(Ch(s, Len(s))) THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s

Upper(s) ==
  LET lo == "abcdefghijklmnopqrstuvwxyz"
      up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
      U(c) == LET i == FindFrom(lo, c, 1) IN IF i = 0 THEN c ELSE Ch(up, i)
  IN JoinStr([i \in 1..Len(s) |-> U(Ch(s, i))], "")

-----------------------------------------------------------------------------
(* Commands known to the specification: they report their arguments *)
Fail(st, why) == IF st.err # "" THEN st ELSE [st EXCEPT !.err = why]
Emit(st, e) == IF st.err # "" THEN st ELSE [st EXCEPT !.ev = Append(@, e)]
Known == {"av", "pv", "pf"}
\* Arguments of a command: empty ones vanish, lists are expanded
ArgsOf(vals) == FlatSeq([i \in 1..Len(vals) |-> IF vals[i] \in {"", Nil} THEN <<>>
                                                ELSE IF IsList(vals[i]) THEN Items(vals[i]) ELSE <<vals[i]>>])
Exec(st, argv, cwd) ==
  IF st.err # "" THEN st
  ELSE IF argv = <<>> \/ argv[1] \notin Known THEN Fail(st, "command")
  ELSE LET s2 == Emit(st, <<"X", cwd>> \o argv) IN IF argv[1] = "pf" THEN Fail(s2, "command") ELSE s2
Output(argv) == IF argv # <<>> /\ argv[1] = "pv" THEN JoinStr(Tail(argv), " ") ELSE ""

Cwd(st, n, dflt) ==
  LET u == UnitOf(st.N, n) IN IF st.N[n].src \/ dflt = "S" THEN UDir(st, u) ELSE UCache(st, u)

\* Commands of a line of shell
RECURSIVE ShellRun(_, _, _, _)
ShellRun(st, ws, acc, cwd) ==
  IF st.err # "" THEN st
  ELSE IF ws = <<>> THEN (IF acc = <<>> THEN st ELSE Exec(st, acc, cwd))
  ELSE IF Head(ws) = "&&" THEN ShellRun(IF acc = <<>> THEN st ELSE Exec(st, acc, cwd), Tail(ws), <<>>, cwd)
  ELSE ShellRun(st, Tail(ws), Append(acc, Head(ws)), cwd)

-----------------------------------------------------------------------------
(* Values. All operators on nodes return the new state, V returns <<state, value>> *)
RECURSIVE V(_, _), SetVal(_, _), EnvGet(_, _, _), Raw(_, _, _), Vs(_, _, _), Setup(_, _), SetupKids(_, _, _),
          RegisterSet(_, _), ItemsVal(_, _, _, _)

\* Values of several nodes
Vs(st, ns, acc) ==
  IF ns = <<>> \/ st.err # "" THEN <<st, acc>>
  ELSE LET r == V(st, Head(ns)) IN Vs(r[1], Tail(ns), Append(acc, r[2]))

ValuedKids(st, ns) == SelectSeq(ns, LAMBDA x : st.N[x].t \in Valued)

\* Definition of a variable in the given unit
Raw(st, u, key) ==
  IF key \notin DOMAIN st.env[u] THEN <<st, Nil>>
  ELSE LET d == st.env[u][key] IN IF d.n = 0 THEN <<st, d.v>> ELSE V(st, d.n)

\* Variable visible from the node
EnvGet(st, n, key) ==
  IF st.err # "" THEN <<st, Nil>>
  ELSE IF n = 0 THEN <<st, IF key \in DOMAIN st.os THEN st.os[key] ELSE Nil>>
  ELSE IF st.N[n].u = 0 THEN EnvGet(st, st.N[n].par, key)
  ELSE LET r == Raw(st, st.N[n].u, key) IN
       IF r[2] # Nil THEN r ELSE EnvGet(r[1], st.N[n].par, key)

IsPrevOf(st, n, m) ==
  LET RECURSIVE P(_)
      P(x) == x > 0 /\ st.N[x].t = "set" /\ (x = n \/ P(st.N[x].pn))
  IN P(m)

\* <<state, unit, name>> of the variable defined by set{} and library{}
DefinedVar(st, n) ==
  LET c == st.N[n].ch[1] IN
  IF st.N[c].t = "bag"
    THEN IF st.N[c].k \in {"root", "parent"}
           THEN LET r == IF st.N[c].ch = <<>> THEN <<st, Nil>> ELSE V(st, st.N[c].ch[1])
                IN <<r[1], IF st.N[c].k = "root" THEN 1 ELSE ParentUnit(st.N, n), r[2]>>
           ELSE <<st, UnitOf(st.N, n), Nil>>
    ELSE LET r == V(st, c) IN <<r[1], UnitOf(st.N, n), r[2]>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Define(st, u, key, d) == [st EXCEPT !.env[u] = Put(@, key, d)]

RegisterSet(st, n) ==
  IF st.err # "" \/ st.N[n].ch = <<>> THEN st
  ELSE LET r == DefinedVar(st, n)
           u == r[2]
           key == r[3]
           d == IF key \in DOMAIN r[1].env[u] THEN r[1].env[u][key] ELSE [n |-> 0, v |-> Nil]
           s2 == IF d.n > 0
                   THEN IF IsPrevOf(r[1], n, d.n) THEN r[1] ELSE [r[1] EXCEPT !.N[n].pn = d.n]
                   ELSE IF d.v # Nil THEN [r[1] EXCEPT !.N[n].pv = d.v] ELSE r[1]
       IN IF key = Nil THEN r[1] ELSE Define(s2, u, key, [n |-> n, v |-> Nil])

ItemsVal(st, ns, acc, dummy) ==
  IF ns = <<>> \/ st.err # "" THEN <<st, acc>>
  ELSE LET r == V(st, Head(ns))
           nd == r[1].N[Head(ns)]
           v == Str(r[2])
       IN ItemsVal(r[1], Tail(ns), acc \o (IF nd.t # "v" /\ StartsWith(nd.k, "..") THEN SpreadVal(v)
                                          ELSE IF IsList(v) THEN v ELSE Sep \o v), dummy)

SetVal(st, n) ==
  LET nd == st.N[n] IN
  IF st.err # "" THEN <<st, Nil>>
  ELSE IF nd.act
    THEN IF nd.pn > 0 THEN (IF st.N[nd.pn].t = "set" THEN SetVal(st, nd.pn) ELSE V(st, nd.pn))
         ELSE <<st, nd.pv>>
  ELSE LET fresh == nd.k = "let" \/ AncestorOf(st.N, n, "foreach") > 0 IN
       IF nd.im # Nil /\ ~fresh THEN <<st, nd.im>>
       ELSE LET s1 == [st EXCEPT !.N[n].act = TRUE, !.N[n].im = Nil]
                vs == IF nd.ch = <<>> THEN <<>> ELSE Tail(nd.ch)
                r == IF vs = <<>> THEN <<s1, "">>
                     ELSE IF Len(vs) = 1 /\ ~(st.N[vs[1]].t # "v" /\ StartsWith(st.N[vs[1]].k, ".."))
                       THEN LET x == V(s1, vs[1]) IN <<x[1], Str(x[2])>>
                     ELSE ItemsVal(s1, vs, "", 0)
            IN IF r[1].err # "" THEN <<r[1], Nil>>
               ELSE <<[r[1] EXCEPT !.N[n].act = FALSE, !.N[n].im = r[2]], r[2]>>

VarVal(st, n) ==
  LET ch == st.N[n].ch IN
  IF ch = <<>> THEN <<st, "">>
  ELSE LET d == IF Len(ch) > 1 THEN V(st, ch[2]) ELSE <<st, "">>
           k == V(d[1], ch[1])
           dv == Str(d[2])
           fe == AncestorOf(st.N, n, "foreach")
       IN IF k[1].err # "" THEN <<k[1], Nil>>
          ELSE IF k[2] = Nil THEN <<k[1], dv>>
          ELSE IF fe > 0 /\ k[1].N[fe].fn = k[2]
            THEN <<[k[1] EXCEPT !.N[fe].fa = @ + 1], IF k[1].N[fe].fv = Nil THEN dv ELSE k[1].N[fe].fv>>
          ELSE LET r == EnvGet(k[1], n, k[2]) IN <<r[1], IF r[2] = Nil THEN dv ELSE r[2]>>

ProcVal(st, n) ==
  LET ch == st.N[n].ch
      fe == AncestorOf(st.N, n, "foreach")
      dep == IF fe = 0 THEN <<st, FALSE>>
             ELSE LET r == Vs(st, ch, <<>>) IN <<r[1], r[1].N[fe].fa # st.N[fe].fa>>
      s1 == dep[1]
  IN IF s1.err # "" THEN <<s1, Nil>>
     ELSE IF dep[2] /\ s1.N[fe].fv = Nil THEN <<s1, "">>
     ELSE IF ~dep[2] /\ s1.N[n].im # Nil THEN <<s1, s1.N[n].im>>
     ELSE IF ch = <<>> THEN <<s1, "">>
     ELSE LET c == V(s1, ch[1])
              a == Vs(c[1], ValuedKids(c[1], Tail(ch)), <<>>)
              argv == <<c[2]>> \o ArgsOf(a[2])
              s2 == Exec(a[1], argv, Cwd(a[1], n, "S"))
              out == TrimEnd(Output(argv))
          IN IF c[2] \in {"", Nil} THEN <<c[1], "">>
             ELSE IF s2.err # "" THEN <<s2, Nil>>
             ELSE <<[s2 EXCEPT !.N[n].im = out], out>>

JoinVal(st, n) ==
  LET r == Vs(st, st.N[n].ch, <<>>)
      list == StartsWith(st.N[n].k, ".")
  IN <<r[1], JoinStr([i \in 1..Len(r[2]) |-> (IF list THEN Sep ELSE "") \o Str(r[2][i])], "")>>

BaseVal(st, n) ==
  LET ch == st.N[n].ch IN
  IF ch = <<>> THEN <<Fail(st, "no argument"), Nil>>
  ELSE LET v == V(st, ch[1])
           e == IF Len(ch) > 1 THEN V(v[1], ch[2]) ELSE <<v[1], "">>
       IN IF v[2] = Nil THEN <<Fail(v[1], "no argument"), Nil>> ELSE <<e[1], BaseCut(v[2]) \o Str(e[2])>>

DirVal(st, n) ==
  LET k == StripSpread(st.N[n].k)
      u == UnitOf(st.N, n)
      dir == CASE k = "S" -> st.root [] k = "C" -> CacheOf(st.root) [] k = "SS" -> UDir(st, u) [] OTHER -> UCache(st, u)
      r == Vs(st, st.N[n].ch, <<>>)
      segs == FlatSeq([i \in 1..Len(r[2]) |-> IF IsList(r[2][i]) THEN Items(r[2][i]) ELSE <<Str(r[2][i])>>])
      p == PathCat("", segs)
  IN <<r[1], AbsPath(IF p = "" THEN "." ELSE p, dir)>>

LibDirs(st, u) ==
  LET tops == <<UCache(st, u)>> \o (IF st.unit[u] = "" THEN <<>> ELSE <<CacheOf(st.root)>>) \o <<st.home \o "/.local">>
  IN FlatSeq([i \in 1..Len(tops) |-> <<tops[i] \o "/lib64/", tops[i] \o "/lib/">>])

FindVal(st, n) ==
  LET r == Vs(st, Tail(st.N[n].ch), <<>>)
      names == FlatSeq([i \in 1..Len(r[2]) |-> IF IsList(r[2][i]) THEN Items(r[2][i]) ELSE <<Str(r[2][i])>>])
      \* The nearest place goes first, then the order of names
      files == FlatSeq([i \in 1..Len(LibDirs(st, UnitOf(st.N, n))) |-> [j \in 1..Len(names) |-> LibDirs(st, UnitOf(st.N, n))[i] \o names[j]]])
      have == SelectSeq(files, LAMBDA x : x \in st.libs)
  IN <<r[1], IF have = <<>> THEN "" ELSE have[1]>>

Remembered(st, n, r) == IF r[1].err # "" \/ Volatile(st.N, n) THEN r ELSE <<[r[1] EXCEPT !.N[n].im = r[2]], r[2]>>

V(st0, n) ==
  IF st0.err # "" THEN <<st0, Nil>>
  ELSE LET st == Setup(st0, n)
           nd == st.N[n]
       IN IF st.err # "" THEN <<st, Nil>>
          ELSE CASE nd.t = "var" -> VarVal(st, n)
                 [] nd.t = "set" -> SetVal(st, n)
                 [] nd.t = "proc" -> ProcVal(st, n)
                 [] nd.t \in {"join", "base", "dir"} ->
                      IF nd.im # Nil THEN <<st, nd.im>>
                      ELSE Remembered(st, n, CASE nd.t = "join" -> JoinVal(st, n) [] nd.t = "base" -> BaseVal(st, n)
                                               [] OTHER -> DirVal(st, n))
                 [] nd.t = "find" -> IF nd.im # Nil THEN <<st, nd.im>> ELSE
                      LET r == FindVal(st, n) IN IF r[1].err # "" THEN r ELSE <<[r[1] EXCEPT !.N[n].im = r[2]], r[2]>>
                 [] OTHER -> <<st, nd.k>>

-----------------------------------------------------------------------------
(* Messages *)
Echo(st, ns) ==
  LET r == Vs(st, ValuedKids(st, ns), <<>>)
      parts == FlatSeq([i \in 1..Len(r[2]) |-> IF r[2][i] = Nil THEN <<>>
                          ELSE IF IsList(r[2][i]) THEN Items(r[2][i]) ELSE <<r[2][i]>>])
      RECURSIVE J(_, _)
      J(acc, q) == IF q = <<>> THEN acc ELSE J(IF acc = "" THEN Head(q) ELSE acc \o " " \o Head(q), Tail(q))
      \* Separators of lists which are not at the beginning of a text are shown
      Show(t) == JoinStr(Split(t, Sep), "^")
  IN Emit(r[1], <<"I", Show(J("", parts))>>)

PhaseBag(st, n, ph) == SelectSeq(st.N[n].ch, LAMBDA x : st.N[x].t = "bag" /\ st.N[x].k = ph)
EchoIn(st, n, ph) ==
  LET b == PhaseBag(st, n, ph)
      none == \A p \in {"init", "setup", "build"} : PhaseBag(st, n, p) = <<>>
  IN IF b # <<>> THEN Echo(st, st.N[b[1]].ch)
     ELSE IF none /\ ph = "build" THEN Echo(st, st.N[n].ch) ELSE st

-----------------------------------------------------------------------------
(* Phase setup *)
SetupKids(st, n, i) ==
  IF st.err # "" \/ i > Len(st.N[n].ch) THEN st ELSE SetupKids(Setup(st, st.N[n].ch[i]), n, i + 1)

ForeachSetup(st, n) ==
  LET ch == st.N[n].ch IN
  IF ch = <<>> THEN Fail(st, "foreach")
  ELSE LET a == V(st, ch[1])
           b == IF Len(ch) > 1 THEN V(a[1], ch[2]) ELSE <<a[1], "">>
           v == Str(b[2])
       IN IF b[1].err # "" THEN b[1]
          ELSE [b[1] EXCEPT !.N[n].fn = Str(a[2]),
                            !.N[n].fi = IF IsList(v) THEN Items(v) ELSE IF v = "" THEN <<>> ELSE <<v>>]

ErrorSetup(st, n) == Fail(Vs(st, st.N[n].ch, <<>>)[1], "error")

EnvSetup(st, n) ==
  IF st.N[n].ch = <<>> THEN st
  ELSE LET r == SetVal(st, n)
           k == DefinedVar(r[1], n)
       IN IF k[1].err # "" \/ r[2] = Nil \/ k[3] = Nil THEN k[1] ELSE [k[1] EXCEPT !.os = Put(@, k[3], r[2])]

Setup(st, n) ==
  IF st.err # "" \/ st.N[n].stp THEN st
  ELSE LET s1 == [st EXCEPT !.N[n].stp = TRUE]
           t == st.N[n].t
       IN IF t = "foreach" THEN SetupKids(ForeachSetup(s1, n), n, 1)
          ELSE LET s2 == SetupKids(s1, n, 1) IN
               IF s2.err # "" THEN s2
               ELSE CASE t = "set" -> (CASE st.N[n].k = "let" -> RegisterSet(s2, n)
                                         [] st.N[n].k = "env" -> EnvSetup(s2, n)
                                         [] OTHER -> s2)
                      [] t = "error" -> ErrorSetup(s2, n)
                      [] t = "echo" -> EchoIn(s2, n, "setup")
                      [] OTHER -> s2

-----------------------------------------------------------------------------
(* Conditions *)
Truthy(v) ==
  IF IsList(v) THEN LET q == Items(v) IN q # <<>> /\ (Len(q) > 1 \/ q[1] # "0") ELSE v \notin {Nil, "", "0"}

RECURSIVE Cond(_, _), AnyDef(_, _, _), AllOf(_, _), AnyOf(_, _)
\* <<state, BOOLEAN>>
AnyDef(st, n, ns) ==
  IF ns = <<>> \/ st.err # "" THEN <<st, FALSE>>
  ELSE LET r == V(st, Head(ns))
           g == IF r[2] \in {Nil, ""} THEN <<r[1], Nil>> ELSE EnvGet(r[1], n, r[2])
       IN IF g[2] # Nil THEN <<g[1], TRUE>> ELSE AnyDef(g[1], n, Tail(ns))
AnyOf(st, ns) ==
  IF ns = <<>> \/ st.err # "" THEN <<st, FALSE>>
  ELSE LET r == Cond(st, Head(ns)) IN IF r[2] THEN r ELSE AnyOf(r[1], Tail(ns))
AllOf(st, ns) ==
  IF ns = <<>> \/ st.err # "" THEN <<st, TRUE>>
  ELSE LET r == Cond(st, Head(ns)) IN IF r[2] THEN AllOf(r[1], Tail(ns)) ELSE r

Pair(st, n) ==
  LET ch == st.N[n].ch
      a == IF ch = <<>> THEN <<st, Nil>> ELSE V(st, ch[1])
      b == IF Len(ch) < 2 THEN <<a[1], Nil>> ELSE V(a[1], ch[2])
  IN <<b[1], a[2], b[2]>>

Cond(st, c) ==
  LET nd == st.N[c]
      op == StripNeg(nd.k)
      r == CASE nd.t = "v" -> <<st, TRUE>>
             [] nd.t = "bag" /\ op = "defined" -> AnyDef(st, nd.par, nd.ch)
             [] nd.t = "bag" /\ op = "or" -> AnyOf(st, nd.ch)
             [] nd.t = "bag" /\ op = "and" -> (LET x == AllOf(st, nd.ch) IN <<x[1], x[2] /\ nd.ch # <<>>>>)
             [] nd.t = "bag" /\ op \in {"eq", "prefix", "contains"} ->
                  (LET p == Pair(st, c) IN
                   <<p[1], IF p[2] # Nil /\ p[3] # Nil
                             THEN CASE op = "eq" -> p[2] = p[3] [] op = "prefix" -> StartsWith(p[2], p[3])
                                    [] OTHER -> HasSub(p[2], p[3])
                             ELSE p[2] = Nil /\ p[3] = Nil>>)
             [] nd.t \in Valued \ {"v"} -> (LET v == V(st, c) IN <<v[1], Truthy(v[2])>>)
             [] OTHER -> <<Fail(st, "condition"), FALSE>>
  IN IF st.err # "" THEN <<st, FALSE>> ELSE <<r[1], IF nd.neg /\ nd.t # "v" THEN ~r[2] ELSE r[2]>>

-----------------------------------------------------------------------------
(* Phase init: rewriting of the tree *)
\* Replaces child n of p, and drops the next child if asked, by the given nodes
RECURSIVE SetPar(_, _, _)
SetPar(N, ids, p) == IF ids = <<>> THEN N ELSE SetPar([N EXCEPT ![Head(ids)].par = p], Tail(ids), p)
SpliceN(N, p, n, new, drop) ==
  LET ch == N[p].ch
      i == IndexOf(ch, n)
      rest == SubSeq(ch, i + (IF drop THEN 2 ELSE 1), Len(ch))
      M == [N EXCEPT ![p].ch = SubSeq(ch, 1, i - 1) \o new \o rest]
  IN SetPar(M, new, p)

NextSibling(N, n) ==
  LET ch == N[N[n].par].ch
      i == IndexOf(ch, n)
  IN IF i < Len(ch) THEN ch[i + 1] ELSE 0

RECURSIVE Init0(_, _), InitKids(_, _), InitUpTo(_, _, _)

InitKids(st, n) ==
  LET todo == SelectSeq(st.N[n].ch, LAMBDA x : ~st.N[x].ini) IN
  IF st.err # "" \/ todo = <<>> THEN st ELSE InitKids(Init0(st, todo[1]), n)

\* Children of p before the node lim (0: all of them)
InitUpTo(st, p, lim) ==
  LET ch == st.N[p].ch
      upto == IF lim > 0 /\ InSeq(ch, lim) THEN SubSeq(ch, 1, IndexOf(ch, lim) - 1) ELSE ch
      todo == SelectSeq(upto, LAMBDA x : ~st.N[x].ini)
  IN IF st.err # "" \/ todo = <<>> THEN st ELSE InitUpTo(Init0(st, todo[1]), p, lim)

IfInit(st, n) ==
  LET ch == st.N[n].ch IN
  IF ch = <<>> THEN Fail(st, "if")
  ELSE LET r == Cond(Init0(st, ch[1]), ch[1])
           s == r[1]
           body == Tail(s.N[n].ch)
           nx == NextSibling(s.N, n)
           els == nx > 0 /\ s.N[nx].k = "else"
       IN IF s.err # "" THEN s
          ELSE [s EXCEPT !.N = SpliceN(s.N, s.N[n].par, n,
                                 IF r[2] THEN body ELSE IF els THEN s.N[nx].ch ELSE <<>>, els)]

IncludeInit(st, n) ==
  LET ch == st.N[n].ch IN
  IF ch = <<>> THEN Fail(st, "include")
  ELSE LET r == V(Init0(st, ch[1]), ch[1])
           s == r[1]
           u == UnitOf(s.N, n)
           full == AbsPath(Str(r[2]), UDir(s, u))
           rel == SubSeq(full, Len(s.root) + 2, Len(full))
           d == LastIdx(rel, "/", Len(rel))
           p == Parse(s.files[rel])
           id == Len(s.N) + 1
           M == AddKids(Append(s.N, [Fresh EXCEPT !.t = "script", !.k = rel, !.par = s.N[n].par, !.u = Len(s.unit) + 1]),
                        id, p.x, 1, FALSE)
       IN IF s.err # "" THEN s
          ELSE IF r[2] \in {Nil, ""} \/ ~StartsWith(full, s.root \o "/") \/ rel \notin DOMAIN s.files THEN Fail(s, "include")
          ELSE IF ~p.ok THEN Fail(s, "syntax")
          ELSE [s EXCEPT !.N = SpliceN(M, s.N[n].par, n, <<id>>, FALSE),
                         !.unit = Append(@, IF d = 0 THEN "" ELSE SubSeq(rel, 1, d - 1)),
                         !.env = Append(@, UnitEnv(s.root, IF d = 0 THEN "" ELSE "/" \o SubSeq(rel, 1, d - 1)))]

\* Decimal number or 0
RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET d == FindFrom("0123456789", Ch(s, i), 1) IN IF d = 0 THEN 0 ELSE NumFrom(s, i + 1, acc * 10 + d - 1)

\* Body of a macro with arguments in place of placeholders: [ok, x: trees, i: index of the last used argument]
RECURSIVE Subst(_, _, _)
Subst(ts, args, i) ==
  IF ts = <<>> THEN [ok |-> TRUE, x |-> <<>>, i |-> i]
  ELSE LET x == Head(ts) IN
       IF x.k = "&"
         THEN LET j == IF x.c = <<>> THEN i + 1 ELSE NumFrom(x.c[1].k, 1, 0) IN
              IF j < 1 \/ j > Len(args) THEN [ok |-> FALSE, x |-> <<>>, i |-> i]
              ELSE LET r == Subst(Tail(ts), args, j) IN [r EXCEPT !.x = <<args[j]>> \o @]
         ELSE LET k == Subst(x.c, args, i)
                  r == Subst(Tail(ts), args, k.i)
              IN [ok |-> k.ok /\ r.ok, x |-> <<[x EXCEPT !.c = k.x]>> \o r.x, i |-> r.i]

CallInit(st, n) ==
  LET ch == st.N[n].ch
      r == IF ch = <<>> THEN <<st, Nil>> ELSE V(st, ch[1])
      s == r[1]
      u == UnitOf(s.N, n)
      mn == IF r[2] # Nil /\ r[2] \in DOMAIN s.env[u] THEN s.env[u][r[2]].n ELSE 0
  IN IF s.err # "" THEN s
     ELSE IF mn = 0 \/ Len(ch) - 1 > MaxArgs THEN Fail(s, "macro")
     ELSE IF s.N[mn].t # "macro" THEN Fail(s, "macro")
     ELSE LET args == [i \in 1..Len(ch) - 1 |-> Tree(s.N, ch[i + 1])]
              body == [i \in 1..Len(s.N[mn].ch) - 1 |-> Tree(s.N, s.N[mn].ch[i + 1])]
              b == Subst(body, args, 0)
              p == s.N[n].par
              lim == NextSibling(s.N, n)
              RECURSIVE Add(_, _, _)
              Add(N, ids, i) == IF i > Len(b.x) THEN <<N, ids>>
                                ELSE Add(AddTree(N, b.x[i], p, s.N[n].src), Append(ids, Len(N) + 1), i + 1)
              a == Add(s.N, <<>>, 1)
              s2 == [s EXCEPT !.N = [SpliceN(a[1], p, n, a[2], FALSE) EXCEPT ![mn].nc = @ + 1]]
              s3 == InitUpTo(s2, p, lim)
          IN IF ~b.ok THEN Fail(s, "macro argument")
             ELSE IF s2.N[mn].nc >= MaxCalls THEN Fail(s, "macro recursion")
             ELSE IF s3.err # "" THEN s3 ELSE [s3 EXCEPT !.N[mn].nc = @ - 1]

RECURSIVE MetaEntries(_, _, _)
MetaEntries(st, n, ns) ==
  IF ns = <<>> \/ st.err # "" THEN st
  ELSE LET e == Head(ns)
           nd == st.N[e]
           Flat(q) == JoinStr(FlatSeq([i \in 1..Len(q) |-> IF IsList(q[i]) THEN <<JoinStr(Items(q[i]), " ")>> ELSE <<Str(q[i])>>]), " ")
           Def(s, key, v) == IF key = "_" THEN s ELSE Define(s, UnitOf(s.N, n), key, [n |-> 0, v |-> v])
           s2 == CASE nd.k = "let" /\ nd.ch # <<>> ->
                        (LET k == V(st, nd.ch[1])
                             r == Vs(k[1], Tail(nd.ch), <<>>)
                         IN IF r[1].err # "" \/ k[2] = Nil THEN r[1] ELSE Def(r[1], k[2], Flat(r[2])))
                   [] nd.t = "bag" -> (LET r == Vs(st, nd.ch, <<>>) IN
                        IF r[1].err # "" THEN r[1]
                        ELSE Def(r[1], "META_" \o Upper(nd.k), JoinStr([i \in 1..Len(r[2]) |-> Str(r[2][i])], " ")))
                   [] OTHER -> st
       IN MetaEntries(s2, n, Tail(ns))

Init0(st, n) ==
  IF st.err # "" \/ st.N[n].ini THEN st
  ELSE LET s1 == [st EXCEPT !.N[n].ini = TRUE]
           t == st.N[n].t
       IN CASE t = "if" -> IfInit(s1, n)
            [] t = "include" -> IncludeInit(s1, n)
            [] t = "insrc" -> [s1 EXCEPT !.N = SpliceN(s1.N, s1.N[n].par, n, s1.N[n].ch, FALSE)]
            [] t = "macro" -> (LET r == IF s1.N[n].ch = <<>> THEN <<s1, Nil>> ELSE V(s1, s1.N[n].ch[1]) IN
                 IF r[1].err # "" \/ r[2] \in {Nil, ""} THEN r[1]
                 ELSE Define([r[1] EXCEPT !.N = SpliceN(r[1].N, r[1].N[n].par, n, <<>>, FALSE)],
                             UnitOf(r[1].N, n), r[2], [n |-> n, v |-> Nil]))
            [] t = "call" -> CallInit(s1, n)
            [] OTHER ->
                 LET s2 == InitKids(s1, n) IN
                 IF s2.err # "" THEN s2
                 ELSE CASE t = "set" -> RegisterSet(s2, n)
                        [] t = "find" -> (LET d == DefinedVar(s2, n) IN
                             IF d[1].err # "" THEN d[1]
                             ELSE IF d[3] = Nil THEN Fail(d[1], "library") ELSE Define(d[1], d[2], d[3], [n |-> n, v |-> Nil]))
                        [] t = "meta" -> MetaEntries(s2, n, s2.N[n].ch)
                        [] t = "echo" -> EchoIn(s2, n, "init")
                        [] OTHER -> s2

-----------------------------------------------------------------------------
(* Phase build *)
RECURSIVE Build(_, _), BuildKids(_, _, _), RunCmds(_, _, _), RunItems(_, _, _, _)
BuildKids(st, n, i) ==
  IF st.err # "" \/ i > Len(st.N[n].ch) THEN st ELSE BuildKids(Build(st, st.N[n].ch[i]), n, i + 1)

ShellText(vals) ==
  JoinStr([i \in 1..Len(vals) |-> IF IsList(vals[i]) THEN JoinStr(Items(vals[i]), " ") ELSE Str(vals[i])], " ")

RunCmds(st, n, ns) ==
  IF ns = <<>> \/ st.err # "" THEN st
  ELSE LET c == Head(ns)
           nd == st.N[c]
           cwd == Cwd(st, n, "C")
           s2 == CASE nd.k = "exec" /\ nd.ch # <<>> ->
                        (LET f == V(st, nd.ch[1])
                             a == Vs(f[1], ValuedKids(f[1], Tail(nd.ch)), <<>>)
                         IN IF f[2] \in {Nil, ""} THEN Fail(f[1], "no command") ELSE Exec(a[1], <<f[2]>> \o ArgsOf(a[2]), cwd))
                   [] nd.k = "exec" -> Fail(st, "no command")
                   [] nd.k = "shell" ->
                        (LET a == Vs(st, nd.ch, <<>>) IN
                         IF ShellText(a[2]) = "" THEN Fail(a[1], "no command") ELSE ShellRun(a[1], SplitQ(ShellText(a[2]), 1, "", FALSE, ""), <<>>, cwd))
                   [] OTHER -> st
       IN RunCmds(s2, n, Tail(ns))

RunItems(st, n, fe, items) ==
  IF items = <<>> \/ st.err # "" THEN st
  ELSE LET s2 == RunCmds([st EXCEPT !.N[fe].fv = Head(items)], n, st.N[n].ch)
       IN RunItems([s2 EXCEPT !.N[fe].fv = Nil], n, fe, Tail(items))

\* Inside of foreach arguments are evaluated once without an item to find out which of them depend on it: <<state, these arguments>>
ProbeArgs(st, n) ==
  LET fe == AncestorOf(st.N, n, "foreach")
      RECURSIVE A(_, _), P(_, _)
      A(r, ns) == IF ns = <<>> \/ r[1].err # "" THEN r
                  ELSE LET v == V(r[1], Head(ns))[1]
                       IN A(<<v, IF v.N[fe].fa # r[1].N[fe].fa THEN Append(r[2], Head(ns)) ELSE r[2]>>, Tail(ns))
      P(r, ns) == IF ns = <<>> \/ r[1].err # "" THEN r
                  ELSE P(IF r[1].N[Head(ns)].k \in {"exec", "shell"}
                           THEN A(r, SelectSeq(r[1].N[Head(ns)].ch, LAMBDA x : r[1].N[x].t \in Valued \ {"v"})) ELSE r, Tail(ns))
      fch == st.N[fe].ch
      list == IF Len(fch) > 1 THEN SelectSeq(<<fch[2]>>, LAMBDA x : st.N[x].t \in Valued \ {"v"}) ELSE <<>>
      args == P(<<st, <<>>>>, st.N[n].ch)
  IN <<Vs(args[1], list, <<>>)[1], args[2]>>

\* Such arguments are evaluated for every item to find out what is changed since the last build
RECURSIVE ProbeItems(_, _, _, _)
ProbeItems(st, fe, args, items) ==
  IF items = <<>> \/ st.err # "" THEN st
  ELSE LET s2 == Vs([st EXCEPT !.N[fe].fv = Head(items)], args, <<>>)[1]
       IN ProbeItems([s2 EXCEPT !.N[fe].fv = Nil], fe, args, Tail(items))

RunBuild(st, n) ==
  LET fe == AncestorOf(st.N, n, "foreach")
      p == ProbeArgs(st, n)
  IN IF fe = 0 THEN RunCmds(st, n, st.N[n].ch)
     ELSE RunItems(ProbeItems(p[1], fe, p[2], st.N[fe].fi), n, fe, st.N[fe].fi)

Build(st, n) ==
  IF st.err # "" \/ st.N[n].blt THEN st
  ELSE LET s1 == BuildKids(st, n, 1)
           t == st.N[n].t
           s2 == IF s1.err # "" THEN s1
                 ELSE CASE t = "set" /\ s1.N[n].k = "let" -> RegisterSet(s1, n)
                        [] t = "echo" -> EchoIn(s1, n, "build")
                        [] t = "run" -> RunBuild(s1, n)
                        [] OTHER -> s1
       IN [s2 EXCEPT !.N[n].blt = TRUE]

-----------------------------------------------------------------------------
(* A case: [root, files, os, opts: sequence of <<name, value>>, libs, home]. The root script is "Autark". *)
RootEnv(root) == UnitEnv(root, "") @@ [x \in {"AUTARK_ROOT_DIR", "AUTARK_CACHE_DIR"} |->
                                         [n |-> 0, v |-> IF x = "AUTARK_ROOT_DIR" THEN root ELSE CacheOf(root)]]
RECURSIVE WithOpts(_, _)
WithOpts(env, q) == IF q = <<>> THEN env ELSE WithOpts(Put(env, Head(q)[1], [n |-> 0, v |-> Head(q)[2]]), Tail(q))

Start(c) ==
  LET p == Parse(c.files["Autark"])
      N == AddKids(<<[Fresh EXCEPT !.t = "script", !.k = "Autark", !.u = 1]>>, 1, p.x, 1, FALSE)
  IN [N |-> N, env |-> <<WithOpts(RootEnv(c.root), c.opts)>>, root |-> c.root, unit |-> <<"">>, os |-> c.os, files |-> c.files, libs |-> {c.libs[i] : i \in DOMAIN c.libs}, home |-> c.home,
      ev |-> <<>>, err |-> IF p.ok THEN "" ELSE "syntax"]
=============================================================================
