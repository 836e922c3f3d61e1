----------------------------- MODULE AkEngineMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of AkEngine for a given small project: all       *)
(* sequences  build, edit, build, edit, ..., build  over a finite set of   *)
(* edits, optionally with one build killed at any point.                   *)
(* Explored histories are printed (HIST) and replayed on the real program, *)
(* the recorded observations are validated with AkEngineTrace.             *)
(***************************************************************************)
EXTENDS AkEngine, Json, IOUtils

M == ndJsonDeserialize(IOEnv.MODEL)[1]

CONSTANTS Depth,    \* number of edits
          MaxKill   \* how many builds may be killed

VARIABLES h,     \* history: numbers of edits, 0 for a build
          o,     \* options of the next build
          quiet, \* result of the last complete build if nothing was edited since
          was,   \* the same for the build before the current one
          kills
mvars == <<vars, h, o, quiet, was, kills>>

Fun(f) == IF f = <<>> THEN Empty ELSE f

S0 == [prj |-> M.projs[1], fs |-> Empty, env |-> Empty, rec |-> Empty, clk |-> 1, o |-> Empty]

Moved(p, q, r) ==
  [i \in {i \in 1..Len(q.rules) : \E j \in DOMAIN r : p.rules[j].uid = q.rules[i].uid}
     |-> r[CHOOSE j \in DOMAIN r : p.rules[j].uid = q.rules[i].uid]]

Apply(s, x) ==
  CASE x.op = "w" -> [s EXCEPT !.fs = (x.p :> [c |-> x.c, v |-> s.clk]) @@ @, !.clk = @ + 1]
    [] x.op = "rm" -> [s EXCEPT !.fs = Drop(@, {x.p})]
    [] x.op = "env" -> [s EXCEPT !.env = (x.p :> x.v) @@ @]
    [] x.op = "unenv" -> [s EXCEPT !.env = Drop(@, {x.p})]
    [] x.op = "opt" -> [s EXCEPT !.o = (x.p :> x.v) @@ @]
    [] x.op = "unopt" -> [s EXCEPT !.o = Drop(@, {x.p})]
    [] x.op = "prj" -> [s EXCEPT !.prj = M.projs[x.n], !.rec = Moved(s.prj, M.projs[x.n], @)]
    [] OTHER -> s

ApplyAll(s, q) == FoldLeft(Apply, s, q)

MInit ==
  LET s == ApplyAll(S0, M.init)
  IN /\ prj = s.prj /\ fs = s.fs /\ env = s.env /\ rec = s.rec /\ clk = s.clk /\ o = s.o
     /\ opts = Empty /\ ph = "idle" /\ todo = 1 /\ stack = <<>> /\ built = {} /\ vals = Empty /\ pm = Empty
     /\ cur = NoRun /\ res = "none" /\ evs = <<>> /\ inst = FALSE
     /\ h = <<>> /\ quiet = "none" /\ was = "none" /\ kills = 0

Edits == Cardinality({n \in 1..Len(h) : h[n].e > 0})
Nop == [e |-> 0, k |-> 0, m |-> ""]

\* A product is edited only if it exists
Possible(q) == \A n \in 1..Len(q) : (q[n].op = "w" /\ InCache(q[n].p)) => Exists(q[n].p)

MEdit ==
  /\ ph = "idle" /\ (IF h = <<>> THEN FALSE ELSE h[Len(h)].e = 0) /\ Edits < Depth
  /\ \E n \in 1..Len(M.edits) :
       /\ Possible(M.edits[n])
       /\ LET s == ApplyAll([prj |-> prj, fs |-> fs, env |-> env, rec |-> rec, clk |-> clk, o |-> o], M.edits[n])
          IN prj' = s.prj /\ fs' = s.fs /\ env' = s.env /\ rec' = s.rec /\ clk' = s.clk /\ o' = s.o
       /\ h' = Append(h, [e |-> n, k |-> 0, m |-> ""])
       /\ quiet' = IF M.edits[n] = <<>> THEN quiet ELSE "none"
  /\ res' = "none"
  /\ UNCHANGED <<opts, ph, todo, stack, built, vals, pm, cur, evs, inst, was, kills>>

MBegin ==
  /\ ph = "idle" /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)].e # 0 \/ h[Len(h)].k # 0)
  /\ BuildBegin(o, FALSE, M.inst)
  /\ h' = Append(h, Nop) /\ was' = quiet /\ quiet' = "none"
  /\ UNCHANGED <<o, kills>>

MStep == BuildStep /\ UNCHANGED <<h, o, kills, quiet, was>>

\* Killed when a command was just started or is just finished
MCrash ==
  /\ kills < MaxKill /\ kills' = kills + 1 /\ cur.live # {} /\ Logged(cur.r)
  /\ \E S \in {{}, cur.live} :
       /\ Crash(S, "crash")
       /\ h' = [h EXCEPT ![Len(h)] = [e |-> 0, k |-> Len(evs), m |-> IF S = {} THEN "b" ELSE "a"]]
  /\ UNCHANGED <<o, quiet, was>>

\* The build is over
MRest ==
  /\ ph = "idle" /\ res \in {"ok", "fail"} /\ quiet = "none" /\ h[Len(h)].e = 0
  /\ quiet' = res /\ UNCHANGED <<vars, h, o, kills, was>>

Full == ph = "idle" /\ Edits = Depth /\ h[Len(h)] = Nop /\ res # "none"
Emit == Full /\ PrintT(<<"HIST", ToJson(h)>>) /\ UNCHANGED mvars

MNext ==
  \/ Emit
  \/ IF ph = "idle" /\ res \in {"ok", "fail"} /\ quiet = "none" THEN MRest
     ELSE MEdit \/ MBegin \/ MStep \/ MCrash
MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
\* Rules which are executed in every build (also if a tracked file does not exist)
Forced(i) == R(i).always \/ (R(i).k = "subst" /\ ~R(i).cached) \/ (HasRec(i) /\ (rec[i].al \/ \E x \in rec[i].com : x[2] = 0))

\* After a successful build a build of the unchanged project has nothing to execute
Done == ph = "idle" /\ res \in {"ok", "fail"}
NoWork == (Done /\ was = "ok") => (res = "ok" /\ \A m \in 1..Len(evs) : Forced(evs[m].r))

\* A failed build of the unchanged project fails again: the failure is not forgotten
Persist == (Done /\ was = "fail") => res = "fail"

\* All active rules were visited by a successful build
Complete == (ph = "idle" /\ res = "ok") =>
              \A i \in ActiveRules : i \in built \/ (R(i).k = "inst" /\ ~inst)
=============================================================================
