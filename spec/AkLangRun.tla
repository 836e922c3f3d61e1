----------------------------- MODULE AkLangRun -----------------------------
(* Build of one project as a state machine: phases follow each other until all are done or one has failed. *)
EXTENDS AkLang

VARIABLES st, ph
lvars == <<st, ph>>

Load(c) == st = Start(c) /\ ph = "init"
PInit == ph = "init" /\ st.err = "" /\ st' = Init0(st, 1) /\ ph' = "setup"
PSetup == ph = "setup" /\ st.err = "" /\ st' = Setup(st, 1) /\ ph' = "build"
PBuild == ph = "build" /\ st.err = "" /\ st' = Build(st, 1) /\ ph' = "done"
PFail == ph # "done" /\ st.err # "" /\ ph' = "done" /\ UNCHANGED st
Phases == PInit \/ PSetup \/ PBuild \/ PFail

-----------------------------------------------------------------------------
(* Nodes which are part of the tree *)
RECURSIVE Live(_, _)
Live(N, n) == {n} \cup UNION {Live(N, N[n].ch[i]) : i \in 1..Len(N[n].ch)}

\* After init conditions, includes, calls of macros and definitions of macros are gone
Shaken == ph \in {"setup", "build", "done"} /\ st.err = "" =>
            \A n \in Live(st.N, 1) : st.N[n].t \notin {"if", "include", "call", "macro", "insrc"} /\ st.N[n].ini

\* The tree is a tree
Tidy == LET L == Live(st.N, 1) IN
        \A n \in L : \A i \in 1..Len(st.N[n].ch) :
          /\ st.N[st.N[n].ch[i]].par = n
          /\ \A j \in 1..Len(st.N[n].ch) : st.N[n].ch[i] = st.N[n].ch[j] => i = j

\* Nothing happens when the root script is rejected
NoEarlyRun == ~st.N[1].ini => st.ev = <<>>

\* Evaluation of variables has come to an end
Quiet == st.err = "" => \A n \in 1..Len(st.N) : ~st.N[n].act

\* Definitions of a variable form a chain
RECURSIVE ChainEnds(_, _, _)
ChainEnds(N, n, left) == n = 0 \/ (left > 0 /\ ChainEnds(N, N[n].pn, left - 1))
Chains == \A n \in 1..Len(st.N) : ChainEnds(st.N, n, Len(st.N))

\* Every node left after init was built when the build has succeeded
AllBuilt == ph = "done" /\ st.err = "" => \A n \in Live(st.N, 1) : st.N[n].blt /\ st.N[n].stp
=============================================================================
