------------------------------- MODULE AkCli -------------------------------
(* The command line: options are taken one by one from the left, a name of a folder may stand among them,     *)
(* a command ends them. What is done then: help, version, list of options, build, build and install, glob.    *)
EXTENDS AkText, AkGlob
VARIABLES args,   \* what is given, all of it
          rest,   \* what is not yet taken
          cf,     \* what is known
          res     \* "" or what was decided

cvars == <<args, rest, cf, res>>
None == "(none)"
Longs == [cache |-> "H", clean |-> "c", help |-> "h", verbose |-> "V", version |-> "v", options |-> "l", install |-> "I", prefix |-> "R", dir |-> "C",
          jobs |-> "J", bindir |-> "bindir", libdir |-> "libdir", includedir |-> "includedir", pkgconfdir |-> "pkgconfdir", mandir |-> "mandir",
          datadir |-> "datadir"]
Wanting == {"H", "R", "C", "D", "J", "bindir", "libdir", "includedir", "pkgconfdir", "mandir", "datadir"}
Flags == {"c", "h", "V", "v", "l", "I"}
Commands == {"set", "dep", "env", "glob"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNumber(v) == LET d == IF StartsWith(v, "-") THEN SubSeq(v, 2, Len(v)) ELSE v IN d # "" /\ \A i \in 1..Len(d) : Ch(d, i) \in Digits

Cf0 == [val |-> [o \in Wanting |-> None], on |-> {}, defs |-> <<>>, folder |-> None, cmd |-> None, params |-> <<>>]
CInit0(a) == args = a /\ rest = a /\ cf = Cf0 /\ res = ""

\* An option with its value
Given(o, v) ==
  IF o = "h" THEN res' = "usage" /\ UNCHANGED cf
  ELSE IF o = "J" /\ ~IsNumber(v) THEN res' = "fatal" /\ UNCHANGED cf
  ELSE /\ UNCHANGED res
       /\ cf' = IF o = "D" THEN [cf EXCEPT !.defs = Append(@, v)]
                ELSE IF o \in Flags THEN [cf EXCEPT !.on = @ \cup {o}]
                ELSE [cf EXCEPT !.val[o] = v, !.on = IF o = "R" THEN @ \cup {"I"} ELSE @]
Wrong == res' = "wrong" /\ UNCHANGED <<cf, rest, args>>

Take ==
  LET a == Head(rest)
      more == Tail(rest)
  IN IF StartsWith(a, "--") /\ a # "--" THEN
       LET p == FindFrom(a, "=", 1)
           nm == IF p = 0 THEN SubSeq(a, 3, Len(a)) ELSE SubSeq(a, 3, p - 1)
       IN IF nm \notin DOMAIN Longs THEN Wrong
          ELSE LET o == Longs[nm]
               IN IF o \in Wanting
                  THEN IF p > 0 THEN Given(o, SubSeq(a, p + 1, Len(a))) /\ rest' = more /\ UNCHANGED args
                       ELSE IF more = <<>> THEN Wrong
                       ELSE Given(o, Head(more)) /\ rest' = Tail(more) /\ UNCHANGED args
                  ELSE IF p > 0 THEN Wrong
                  ELSE Given(o, "") /\ rest' = more /\ UNCHANGED args
     ELSE \* The first letter of a group
       LET o == Ch(a, 2)
           tail == SubSeq(a, 3, Len(a))
       IN IF o \notin Wanting \cup Flags \/ Len(o) # 1 THEN Wrong
          ELSE IF o \in Wanting
               THEN IF tail # "" THEN Given(o, tail) /\ rest' = more /\ UNCHANGED args
                    ELSE IF more = <<>> THEN Wrong
                    ELSE Given(o, Head(more)) /\ rest' = Tail(more) /\ UNCHANGED args
          ELSE Given(o, "") /\ rest' = (IF tail = "" THEN more ELSE <<"-" \o tail>> \o more) /\ UNCHANGED args

IsOption(a) == Len(a) > 1 /\ StartsWith(a, "-") /\ a # "--"
Opt == res = "" /\ rest # <<>> /\ cf.cmd = None /\ IsOption(Head(rest)) /\ Take
\* A name which is not an option
Bare ==
  /\ res = "" /\ rest # <<>> /\ cf.cmd = None /\ ~IsOption(Head(rest))
  /\ UNCHANGED <<args, res>>
  /\ LET q == IF Head(rest) = "--" THEN Tail(rest) ELSE rest
     IN IF q = <<>> THEN rest' = <<>> /\ UNCHANGED cf
        ELSE IF cf.folder # None \/ Head(q) \in Commands
        THEN rest' = <<>> /\ cf' = [cf EXCEPT !.cmd = IF cf.folder # None THEN "" ELSE Head(q), !.params = Tail(q)]
        ELSE rest' = Tail(q) /\ cf' = [cf EXCEPT !.folder = Head(q)]
\* Nothing is left
Decision == IF "v" \in cf.on THEN "version"
            ELSE IF cf.cmd = "glob" THEN "glob"
            ELSE IF cf.cmd \in Commands THEN "fatal"        \* Only from scripts of checks
            ELSE IF "l" \in cf.on THEN "list" ELSE "build"
Done ==
  /\ res = "" /\ rest = <<>>
  /\ res' = Decision
  /\ UNCHANGED <<args, rest, cf>>
CNext == Opt \/ Bare \/ Done

-----------------------------------------------------------------------------
(* What the result means *)
Or(v, d) == IF v = None THEN d ELSE v
RECURSIVE Last(_, _)
DefName(d) == LET p == FindFrom(d, "=", 1) IN IF p = 0 THEN d ELSE SubSeq(d, 1, p - 1)
DefVal(d) == LET p == FindFrom(d, "=", 1) IN IF p = 0 THEN "" ELSE SubSeq(d, p + 1, Len(d))
Last(q, n) == IF q = <<>> THEN None ELSE IF DefName(q[Len(q)]) = n THEN DefVal(q[Len(q)]) ELSE Last(SubSeq(q, 1, Len(q) - 1), n)
RECURSIVE NormQ(_, _)
NormQ(q, acc) == IF q = <<>> THEN acc
                 ELSE CASE Head(q) \in {"", "."} -> NormQ(Tail(q), acc)
                        [] Head(q) = ".." -> NormQ(Tail(q), IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
                        [] OTHER -> NormQ(Tail(q), Append(acc, Head(q)))
At(dir, p) == "/" \o JoinStr(NormQ(Split(IF StartsWith(p, "/") THEN p ELSE dir \o "/" \o p, "/"), <<>>), "/")

Install == "I" \in cf.on
Prefix(cwd, home) == IF cf.val["R"] = None THEN home \o "/.local" ELSE At(cwd, cf.val["R"])
Dirs == [INSTALL_BIN_DIR |-> Or(cf.val["bindir"], "bin"), INSTALL_LIB_DIR |-> Or(cf.val["libdir"], None), INSTALL_DATA_DIR |-> Or(cf.val["datadir"], "share"),
         INSTALL_INCLUDE_DIR |-> Or(cf.val["includedir"], "include"), INSTALL_MAN_DIR |-> Or(cf.val["mandir"], "share/man"),
         INSTALL_PKGCONFIG_DIR |-> Or(cf.val["pkgconfdir"], "lib/pkgconfig")]
Root(cwd) == IF cf.folder = None THEN cwd ELSE At(cwd, cf.folder)
Cache(cwd) == At(Root(cwd), Or(cf.val["H"], "autark-cache"))

\* The tree: two projects of the same shape, one in another
Shape == {<<"Autark">>, <<"f.txt">>, <<"sub">>, <<"sub", "Autark">>, <<"autark-cache">>, <<"autark-cache", "old">>, <<"cc">>, <<"cc", "old">>,
          <<"c">>, <<"c", "d">>, <<"c", "d", "old">>, <<".hid">>}
Tree == [all |-> Shape \cup {<<"proj">>} \cup {<<"proj">> \o q : q \in Shape}, folders |-> {q \in Shape : q[Len(q)] \in {"sub", "autark-cache", "cc", "c", "d"}}
        \cup {<<"proj">>} \cup {<<"proj">> \o q : q \in {q \in Shape : q[Len(q)] \in {"sub", "autark-cache", "cc", "c", "d"}}}]
Projects(cwd) == {cwd, cwd \o "/proj"}
FolderPaths(cwd) == {cwd} \cup {cwd \o "/" \o JoinStr(q, "/") : q \in Tree.folders}
GlobFrom(cwd) == CHOOSE q \in Tree.folders \cup {<<>>} : (IF q = <<>> THEN cwd ELSE cwd \o "/" \o JoinStr(q, "/")) = At(cwd, Or(cf.val["C"], "."))
Globbed(cwd) == Glob(Tree, GlobFrom(cwd), IF cf.params = <<>> THEN <<"*">> ELSE cf.params)
Above(a, b) == a = b \/ a = "/" \/ StartsWith(b, a \o "/")
Outcome(cwd, r) == IF r = "glob" /\ cf.val["C"] # None /\ At(cwd, cf.val["C"]) \notin FolderPaths(cwd) THEN "fatal" ELSE IF r \in {"build", "list"} /\ (Root(cwd) \notin Projects(cwd) \/ Above(Cache(cwd), Root(cwd))) THEN "fatal" ELSE r

TypeOK == res \in {"", "usage", "wrong", "fatal", "version", "list", "build", "glob"} /\ Len(rest) <= Len(args) + 3
\* Nothing is installed and nothing is removed unless it was asked for
Asked == /\ ("I" \in cf.on => \E i \in 1..Len(args) : \E c \in {"I", "R", "prefix", "install"} : HasSub(args[i], c))
         /\ ("c" \in cf.on => \E i \in 1..Len(args) : HasSub(args[i], "c"))
\* All definitions are used in the order in which they are given
Defs == \A i \in 1..Len(cf.defs) : \E k \in 1..Len(args) : EndsWith(args[k], cf.defs[i])
Ends == <>(res # "")
=============================================================================
