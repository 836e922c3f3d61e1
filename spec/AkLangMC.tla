------------------------------ MODULE AkLangMC ------------------------------
(* All small programs of several families: their behaviours are computed and printed for replay on the real program. *)
EXTENDS AkLangRun, Json

CONSTANTS Fam,      \* name of the family
          Size,     \* bound of the number of rules or values
          Emits    \* BOOLEAN: print cases

VARIABLE prog       \* [files: path -> sequence of trees, opts, os] or [text |-> path -> text, opts, os]
mvars == <<lvars, prog>>

v(s) == [t |-> "v", k |-> s, c |-> <<>>]
r(k, c) == [t |-> "r", k |-> k, c |-> c]
var(x) == r("$", <<v(x)>>)
def(x, d) == r("$", <<v(x), d>>)
sp(x) == [x EXCEPT !.k = ".." \o @]
echo(c) == r("echo", c)
av(c) == r("run", <<r("exec", <<v("av")>> \o c)>>)
Seqs(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
P(root) == [files |-> [x \in {"Autark"} |-> root], opts |-> <<>>, os |-> <<>>]
P2(root, inc) == [files |-> [x \in {"Autark", "s/i.ak"} |-> IF x = "Autark" THEN root ELSE inc], opts |-> <<>>, os |-> <<>>]

-----------------------------------------------------------------------------
(* Variables and scopes *)
VarRules == {
  r("set", <<v("X"), v("1")>>), r("set", <<v("X"), r("^", <<var("X"), v("2")>>)>>),
  r("set", <<v("X"), sp(var("X")), v("3")>>), r("set", <<v("Y"), var("X")>>), r("set", <<v("X"), var("Y")>>),
  r("let", <<v("L"), r("^", <<var("L"), var("X")>>)>>), r("let", <<v("L"), v("b")>>),
  echo(<<def("X", v("d")), var("Y"), var("L")>>), echo(<<r("setup", <<var("X"), var("L")>>), r("init", <<var("X")>>)>>),
  r("env", <<v("E"), var("X")>>), r("option", <<v("X"), v("text")>>)}
Inc == r("include", <<v("s/i.ak")>>)
IncRules == {
  r("set", <<v("X"), v("9")>>), r("set", <<r("parent", <<v("X")>>), r("^", <<var("X"), v("8")>>)>>),
  r("set", <<r("root", <<v("Y")>>), v("7")>>), r("let", <<v("L"), r("^", <<var("L"), v("i")>>)>>),
  echo(<<var("X"), var("Y"), var("L")>>), r("let", <<r("parent", <<v("L")>>), v("p")>>),
  r("set", <<r("parent", <<v("X")>>), sp(var("X")), v("q")>>)}
Show == <<echo(<<var("X"), def("Y", v("y")), var("L"), var("E")>>)>>
WithEnv(S) == {[p EXCEPT !.opts = o] : p \in S, o \in {<<>>, << <<"X", "o">> >>}}
VarPlain(n) == WithEnv({P(q \o Show) : q \in Seqs(VarRules, 0, n)})
VarInc(n) == {P2(a \o <<Inc>> \o b \o Show, i \o <<echo(<<var("X"), var("L")>>)>>) :
             a \in Seqs(VarRules, 0, 1), b \in Seqs(VarRules, 0, n - 2), i \in Seqs(IncRules, 0, 2)}

-----------------------------------------------------------------------------
(* Lists(n) and arguments *)
ListVals == {v("a"), v("b c"), v(""), var("L"), sp(var("L")), var("S"), sp(var("S")), r("set", <<v("_"), v("p"), v("q")>>),
             sp(r("set", <<v("_"), v("p"), v("q r")>>)), r("^", <<v("m"), var("S")>>), sp(r("^", <<v("m"), v("n o")>>)),
             r("@", <<v("pv"), v("k"), v("l")>>), sp(r("@", <<v("pv"), v("k"), v("l")>>)), var("U"), sp(var("U")),
             def("U", v("d e")), sp(var("Q")), var("Q"), var("N"), sp(var("N"))}
ListPre == <<r("set", <<v("L"), v("x"), v("y z")>>), r("set", <<v("S"), v("s t")>>), r("set", <<v("N")>>),
             r("set", <<v("Q"), v("\"g h\" i\\ j \"k\"")>>)>>
Lists(n) == {P(ListPre \o <<r("set", <<v("T")>> \o q), echo(<<var("T")>>), av(<<var("T")>> \o q)>>) : q \in Seqs(ListVals, 1, n)}
\* Every item of a foreach, with lists of all kinds
Each(n) == {P(ListPre \o <<r("foreach", <<v("I"), r("set", <<v("_")>> \o q), av(<<var("I"), r("^", <<v("-"), var("I")>>), var("L")>>)>>)>>)
           : q \in Seqs(ListVals, 1, n)}

\* Texts given by options which are split into words where they are spread
Pieces == {"a", " ", "'", "\"", "\\", "'b c'", "\"d e\"", "\t"}
Spreads(n) == {[P(<<av(<<sp(var("X"))>>), r("set", <<v("T"), v("f"), sp(var("X")), v("g")>>), av(<<var("T"), var("X")>>), echo(<<var("T"), sp(var("X"))>>)>>)
                EXCEPT !.opts = << <<"X", JoinStr(q, "")>> >>] : q \in Seqs(Pieces, 0, n)}

-----------------------------------------------------------------------------
(* Conditions *)
Atoms0 == {var("T1"), var("T0"), var("U"), var("EM"), var("LL"), r("eq", <<v("a"), v("a")>>), r("eq", <<var("T1"), v("0")>>),
           r("eq", <<>>), r("eq", <<var("U"), v("")>>), r("prefix", <<v("abc"), v("ab")>>), r("prefix", <<v("ab"), v("abc")>>),
           r("contains", <<v("abc"), v("bc")>>), r("contains", <<v("abc"), v("d")>>), r("defined", <<v("EM")>>),
           r("defined", <<v("U")>>), r("defined", <<v("U"), v("T0")>>), r("defined", <<v("T1"), v("V1")>>), v("w")}
Neg(x) == [x EXCEPT !.k = "!" \o @]
Atoms == Atoms0 \cup {Neg(x) : x \in {y \in Atoms0 : y.t = "r"}}
Pairs(S) == {r(o, q) : o \in {"and", "or", "!and", "!or"}, q \in Seqs(S, 0, 2)}
Few == {var("T1"), var("U"), Neg(var("T1")), r("defined", <<v("T0")>>), r("!eq", <<v("a"), v("a")>>)}
Conds(n) == CASE n <= 1 -> Atoms \cup Pairs(Few)
           [] n = 2 -> Atoms \cup Pairs(Atoms)
           [] OTHER -> Pairs(Few \cup Pairs(Few))
CondPre == <<r("set", <<v("T1"), v("1")>>), r("set", <<v("T0"), v("0")>>), r("set", <<v("EM"), v("")>>),
             r("set", <<v("LL"), v("p"), v("q")>>)>>
Branches(c) == {
  <<r("if", <<c, echo(<<v("yes")>>)>>), r("else", <<echo(<<v("no")>>)>>)>>,
  <<echo(<<v("x"), r("if", <<c, v("y"), r("if", <<Neg(var("T0")), v("n")>>)>>), r("else", <<v("z")>>), v("w")>>)>>,
  <<r("if", <<c, r("set", <<v("R"), v("1")>>), echo(<<v("in")>>)>>), r("if", <<var("R"), echo(<<v("r")>>)>>),
    r("else", <<r("if", <<c>>), r("else", <<av(<<v("e")>>)>>)>>)>>,
  <<r("set", <<v("W"), v("a"), r("if", <<c, v("b")>>), v("c")>>), av(<<var("W"), r("if", <<c>>), r("else", <<var("W"), v("2")>>)>>)>>}
CondProgs(n) == {P(CondPre \o <<echo(<<v("1")>>)>> \o b \o <<echo(<<v("2")>>)>>) : b \in UNION {Branches(c) : c \in Conds(n)}}

-----------------------------------------------------------------------------
(* Macros *)
arg(i) == IF i = 0 THEN r("&", <<>>) ELSE r("&", <<v(ToString(i))>>)
MBody == {echo(<<arg(1)>>), echo(<<v("s"), arg(0), arg(0)>>), echo(<<arg(2), arg(1)>>), r("set", <<v("X"), arg(1)>>),
          r("if", <<r("eq", <<arg(1), v("a")>>), echo(<<v("yes"), arg(2)>>)>>), r("else", <<echo(<<v("no"), arg(0)>>)>>), echo(<<var("X")>>),
          r("call", <<v("N"), arg(2), arg(1)>>), r("set", <<r("^", <<v("V"), arg(1)>>), arg(2)>>), av(<<r("^", <<arg(1), arg(1)>>)>>)}
MArgs == {<<>>, <<v("a")>>, <<v("a"), v("b c")>>, <<var("Y"), v("a")>>, <<r("set", <<v("_"), v("p"), v("q")>>), var("U"), v("z")>>}
MacroProgs(n) == {P(<<r("macro", <<v("N"), echo(<<v("n"), arg(1), arg(2)>>)>>), r("macro", <<v("M")>> \o b), r("set", <<v("Y"), v("a")>>),
                   echo(<<v("1")>>), r("call", <<v("M")>> \o a), echo(<<v("2"), var("X"), var("Va")>>)>> \o e) :
                 b \in Seqs(MBody, 0, n), a \in MArgs, e \in {<<>>, <<r("call", <<v("M"), v("c"), v("d")>>)>>}}
\* Macros which give values, and calls at all places
MValues(n) == {P(<<r("macro", <<v("M")>> \o b), r("set", <<v("T"), v("t"), r("call", <<v("M")>> \o a), v("u")>>),
                echo(<<r("call", <<v("M")>> \o a), var("T")>>),
                r("if", <<r("eq", <<var("T"), var("T")>>), r("in-sources", <<av(<<v("i"), r("call", <<v("M")>> \o a), v("j")>>)>>)>>)>>) :
               b \in Seqs({v("k"), arg(1), arg(0), arg(2), r("^", <<arg(1), v("-"), arg(2)>>), var("T1"), r("if", <<arg(1), v("c")>>)}, 0, n),
               a \in MArgs}
\* Limits of the number of arguments
Wide == {P(<<r("macro", <<v("M")>> \o [i \in 1..k |-> arg(0)] \o e), echo(<<r("call", <<v("M")>> \o [i \in 1..m |-> v("a" \o ToString(i))])>>), echo(<<v("end")>>)>>) :
           k \in {1, 63, 64, 65}, m \in {63, 64, 65}, e \in {<<>>, <<arg(64)>>, <<arg(65), v("x")>>}}

-----------------------------------------------------------------------------
(* Texts(n) *)
Alpha == {"a", " ", "\n", "{", "}", "'", "\"", "\\", "#"}
Chars(n) == Seqs(Alpha, 0, n)
Texts(n) == {[text |-> [x \in {"Autark"} |-> t[1] \o JoinStr(s, "") \o t[2]], opts |-> <<>>, os |-> <<>>] :
            s \in Chars(n), t \in {<<"echo {", "}">>, <<"echo {b} ", " echo {c}">>, <<"", "">>, <<"echo { \"", "\" '" \o "'}">>}}

-----------------------------------------------------------------------------
(* Paths(n) *)
SegVals == {v("a"), v("b/c"), v(".."), v("."), v("/abs"), v("x/../y"), v(""), v("d.e/f"), v("z/"), var("L"), r("%", <<v("m.n/o.c"), v(".h")>>)}
Names == {v("main.c"), v("d.x/f"), v("../q"), v("a.b.c"), v(".hid"), v("d/.hid"), v("x."), v(""), v("/"), var("L"), r("SS", <<v("s.c")>>),
          r("%", <<v("a.b.c")>>)}
PathPre == <<r("set", <<v("L"), v("l1"), v("l2.e")>>)>>
PathEcho(q) == <<echo([i \in 1..4 |-> r(<<"S", "C", "SS", "CC">>[i], q)]), av([i \in 1..4 |-> r(<<"S", "C", "SS", "CC">>[i], q)])>>
Paths(n) == {P2(PathPre \o PathEcho(q) \o <<Inc>>, PathEcho(q)) : q \in Seqs(SegVals, 0, n)}
           \cup {P(PathPre \o <<echo(<<r("%", <<m>> \o e), v("|"), r("^", <<r("%", <<m>> \o e), v("+")>>)>>)>>) :
                   m \in Names, e \in {<<>>, <<v(".o")>>, <<v("")>>, <<var("U")>>, <<v("_t.c"), v("x")>>}}

-----------------------------------------------------------------------------
(* Segs(n): all short spellings of paths *)
SegAlpha == {"a", ".", "/"}
SegUses(w) == <<echo(<<r("S", <<v("d"), w>>), r("CC", <<w>>), r("C", <<w, v("e")>>)>>), echo(<<r("%", <<w>>), r("%", <<w, v(".o")>>)>>)>>
Segs(n) == {P(SegUses(v(JoinStr(q, "")))) : q \in Seqs(SegAlpha, 1, n)}

-----------------------------------------------------------------------------
(* Directories of commands *)
CwdCmds == {av(<<v("r")>>), r("run", <<r("shell", <<v("av"), v("h"), v("&&"), v("av"), v("j")>>)>>), echo(<<r("@", <<v("pv"), v("p")>>)>>),
            r("set", <<v("A"), r("@@", <<v("pv"), v("q")>>)>>), echo(<<var("A")>>), r("call", <<v("M"), v("m")>>),
            r("foreach", <<v("I"), r("set", <<v("_"), v("1"), v("2")>>), av(<<var("I"), r("@", <<v("pv"), var("I")>>)>>)>>)}
Wrap == {<<"">>, <<"in-sources">>, <<"if">>, <<"group">>, <<"if", "in-sources">>, <<"in-sources", "if">>, <<"in-sources", "group">>}
RECURSIVE Wrapped(_, _)
Wrapped(w, q) == IF w = <<>> THEN q ELSE IF Head(w) = "" THEN q
                 ELSE <<r(Head(w), (IF Head(w) = "if" THEN <<v("1")>> ELSE <<>>) \o Wrapped(Tail(w), q))>>
CwdMacro == <<r("macro", <<v("M"), av(<<arg(1)>>), r("in-sources", <<av(<<v("src"), arg(1)>>)>>)>>)>>
CwdProgs(n) == {P2(CwdMacro \o Wrapped(w, a) \o Wrapped(w2, <<Inc>>), CwdMacro \o Wrapped(w2, b)) :
               a \in Seqs(CwdCmds, 0, 1), b \in Seqs(CwdCmds, 1, n), w \in Wrap, w2 \in IF n > 1 THEN Wrap ELSE {<<"">>, <<"in-sources">>, <<"if", "in-sources">>}}

-----------------------------------------------------------------------------
Programs == CASE Fam = "vars" -> VarPlain(Size)
              [] Fam = "scopes" -> VarInc(Size)
              [] Fam = "lists" -> Lists(Size)
              [] Fam = "each" -> Each(Size)
              [] Fam = "spread" -> Spreads(Size)
              [] Fam = "cond" -> CondProgs(Size)
              [] Fam = "macro" -> MacroProgs(Size)
              [] Fam = "mvalues" -> MValues(Size) \cup (IF Size > 1 THEN Wide ELSE {})
              [] Fam = "texts" -> Texts(Size)
              [] Fam = "paths" -> Paths(Size)
              [] Fam = "segs" -> Segs(Size)
              [] Fam = "cwd" -> CwdProgs(Size)

RootDir == "/T/1/2/3/4/5/6/p"
TextOf(p) == IF "text" \in DOMAIN p THEN p.text ELSE [f \in DOMAIN p.files |-> PrintAll(p.files[f])]
CaseOf(p) == [root |-> RootDir, files |-> TextOf(p), opts |-> p.opts, os |-> p.os, libs |-> <<>>, home |-> "/h"]

MInit == prog \in Programs /\ Load(CaseOf(prog))
MNext == Phases /\ UNCHANGED prog
MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
Out == ph = "done" /\ Emits =>
         PrintT(<<"CASE", ToJson([files |-> TextOf(prog), opts |-> prog.opts, ev |-> st.ev, ok |-> st.err = ""])>>)

\* Text of a program means this program
Reprinted == ph = "init" /\ "files" \in DOMAIN prog =>
               \A f \in DOMAIN prog.files : Parse(PrintAll(prog.files[f])) = [ok |-> TRUE, x |-> prog.files[f]]

\* A program in which conditions, macros and calls are replaced by what is left of them behaves in the same way
RunAll(s) == LET a == Init0(s, 1)
                 b == IF a.err = "" THEN Setup(a, 1) ELSE a
             IN IF b.err = "" THEN Build(b, 1) ELSE b
\* Nodes whose commands are executed in sources are put back in in-sources
RECURSIVE Left(_, _)
Left(N, x) ==
  LET t == [t |-> IF N[x].t = "v" THEN "v" ELSE "r", k |-> N[x].k, c |-> [i \in 1..Len(N[x].ch) |-> Left(N, N[x].ch[i])]]
  IN IF N[x].par > 0 /\ N[x].src /\ ~N[N[x].par].src THEN r("in-sources", <<t>>) ELSE t
Residual ==
  ph = "setup" /\ st.err = "" =>
    LET t == Left(st.N, 1).c
        N == AddKids(<<[Fresh EXCEPT !.t = "script", !.k = "Autark", !.u = 1]>>, 1, t, 1, FALSE)
        again == RunAll([Start(CaseOf(prog)) EXCEPT !.N = N])
        once == RunAll(Start(CaseOf(prog)))
    IN again.ev = once.ev /\ again.err = once.err

\* A variable which is defined by set{} has the same value everywhere in phase build
Declarative ==
  ph = "done" /\ st.err = "" =>
    \A a, b \in {m \in Live(st.N, 1) : st.N[m].t = "var" /\ UnitOf(st.N, m) = 1} :
       st.N[st.N[a].ch[1]].k = "Y" /\ st.N[st.N[b].ch[1]].k = "Y" /\ Len(st.N[a].ch) = Len(st.N[b].ch)
       /\ AncestorOf(st.N, a, "set") = 0 /\ AncestorOf(st.N, b, "set") = 0
          => V(st, a)[2] = V(st, b)[2]
=============================================================================
