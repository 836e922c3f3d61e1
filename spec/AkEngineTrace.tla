---------------------------- MODULE AkEngineTrace ----------------------------
(* Validation of histories recorded from the real program against AkEngine. *)
EXTENDS AkEngine, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, k, b0
tvars == <<vars, t, l, k, b0>>

Steps == Traces[t].steps
Step == Steps[l]
Fun(f) == IF f = <<>> THEN Empty ELSE f

TraceInit ==
  /\ t \in 1..Len(Traces) /\ l = 1 /\ k = 1 /\ b0 = 0
  /\ prj = Traces[t].projs[1]
  /\ fs = Empty /\ env = Empty /\ opts = Empty /\ rec = Empty /\ clk = 1 /\ ph = "idle" /\ todo = 1
  /\ stack = <<>> /\ built = {} /\ vals = Empty /\ pm = Empty /\ cur = NoRun /\ res = "none" /\ evs = <<>> /\ inst = FALSE

Next1 == l' = l + 1

IsOp(o) == l <= Len(Steps) /\ ph = "idle" /\ Step.op = o

TWrite == IsOp("w") /\ SetFile(Step.p, Step.c) /\ Next1 /\ UNCHANGED <<t, k, b0>>
TDel == IsOp("rm") /\ DelFile(Step.p) /\ Next1 /\ UNCHANGED <<t, k, b0>>
TEnv == IsOp("env") /\ SetEnv(Step.p, Step.v) /\ Next1 /\ UNCHANGED <<t, k, b0>>
TUnenv == IsOp("unenv") /\ UnsetEnv(Step.p) /\ Next1 /\ UNCHANGED <<t, k, b0>>
\* Scripts are replaced: written files are given by following "w" steps.
TPrj == IsOp("prj") /\ prj' = Traces[t].projs[Step.n] /\ res' = "none" /\ Next1
        \* Records of rules are matched by their text
        /\ rec' = [i \in {i \in 1..Len(Traces[t].projs[Step.n].rules) :
                     \E j \in DOMAIN rec : prj.rules[j].uid = Traces[t].projs[Step.n].rules[i].uid}
                   |-> rec[CHOOSE j \in DOMAIN rec : prj.rules[j].uid = Traces[t].projs[Step.n].rules[i].uid]]
        /\ UNCHANGED <<fs, env, opts, clk, ph, todo, stack, built, vals, pm, cur, evs, inst, t, k, b0>>

\* The project was moved or copied to another place, with its cache: nothing is known about files there
TMove == IsOp("mv") /\ rec' = Empty /\ res' = "none" /\ Next1
         /\ UNCHANGED <<prj, fs, env, opts, clk, ph, todo, stack, built, vals, pm, cur, evs, inst, t, k, b0>>

Running == l <= Len(Steps) /\ Step.op = "build"
Obs == Step.obs

TBegin == /\ Running /\ ph = "idle" /\ k = 1 /\ b0 # clk
          /\ BuildBegin(Fun(Step.o), Step.clean, Step.inst)
          /\ b0' = clk /\ UNCHANGED <<t, l, k>>

Target(p) == StartsWith(p, "C:") \/ StartsWith(p, "I:")
Products(f) == [p \in {p \in DOMAIN f : Target(p)} |-> f[p].c.txt]
Rewritten(f) == {p \in DOMAIN f : Target(p) /\ f[p].v >= b0}

\* Starting a command consumes an observed event
TStart ==
  /\ Running /\ cur.r # 0
  /\ \E n \in (IF R(cur.r).k = "cc" THEN 1..Len(cur.pend) ELSE {1}) :
       /\ Start(n)
       /\ IF ~Logged(cur.r) THEN k' = k
          ELSE /\ k' = k + 1
               /\ IF k <= Len(Obs.ev) /\ Obs.ev[k] = Event(cur.r, cur.pend[n]) THEN TRUE
                  ELSE PrintT(<<"MISMATCH", t, l, "event", k, ToJson(Event(cur.r, cur.pend[n]))>>) /\ FALSE
  /\ UNCHANGED <<t, l, b0>>

\* The first of waiting compilers is not started
TNoStart ==
  /\ Running /\ cur.r # 0 /\ Step.io /\ Obs.rc = "fail" /\ NoStart(1)
  /\ UNCHANGED <<t, l, k, b0>>

EndOk ==
  IF /\ res' = Obs.rc
     /\ k = Len(Obs.ev) + 1
     /\ Products(fs') = Fun(Obs.prod)
     /\ Rewritten(fs') = Range1(Obs.rw)
  THEN TRUE
  ELSE PrintT(<<"MISMATCH", t, l, "end", res', k, ToJson(Products(fs')), ToJson(Rewritten(fs'))>>) /\ FALSE

\* Any other step of a build; checks observations when the build is over
TStep ==
  /\ Running /\ ph # "idle"
  /\ \/ InitCheck \/ Setup \/ NextRule \/ PhaseEnd \/ VisitConsumed \/ VisitSubst \/ Decide \/ Commit
     \* Compilers do not depend on each other: the order of their completion is not observable
     \/ cur.live # {} /\ (R(cur.r).k = "cc" => cur.pend = <<>>) /\ Finish(CHOOSE x \in cur.live : TRUE)
  /\ IF ph' = "idle"
     THEN /\ EndOk /\ PrintT(<<"AT", t, l>>) /\ Next1 /\ k' = 1 /\ b0' = 0
     ELSE UNCHANGED <<l, k, b0>>
  /\ UNCHANGED t

\* The build was killed, or an operation of the build process itself failed (disk full, no processes)
\* and the build was given up. Files which were being written by the build process
\* itself (configure, install) may have any content.
GivenUp == IF Obs.rc = "crash" THEN TRUE ELSE Obs.rc = "fail" /\ Step.io
TCrash ==
  /\ Running /\ GivenUp /\ ph # "idle" /\ k = Len(Obs.ev) + 1
  /\ IF cur.r # 0 /\ ~Logged(cur.r)
     THEN LET own == IF R(cur.r).k = "inst" THEN Range1(R(cur.r).outs) ELSE Outs(cur.r)
              seen == own \cap DOMAIN Fun(Obs.prod)
              f == [p \in seen |-> [c |-> Txt(Obs.prod[p]), v |-> clk]] @@ Drop(fs, own)
          IN fs' = f /\ clk' = clk + 1 /\ StopBuild(Obs.rc) /\ UNCHANGED <<rec, todo, vals, evs>>
     ELSE \E S \in SUBSET cur.live : Crash(S, Obs.rc)
  /\ Products(fs') = Fun(Obs.prod)
  /\ PrintT(<<"AT", t, l>>) /\ Next1 /\ k' = 1 /\ b0' = 0
  /\ UNCHANGED t

\* Properties are evaluated in every step of every trace
Sound(n, p) == IF p THEN TRUE ELSE PrintT(<<"UNSOUND", t, l, n>>) /\ FALSE
Properties == Sound("Fresh", Fresh) /\ Sound("Once", Once) /\ Sound("Ordered", Ordered) /\ Sound("Recorded", Recorded)

\* All steps are explained
TDone == l = Len(Steps) + 1 /\ k = 1 /\ k' = 0 /\ PrintT(<<"ACCEPT", t>>) /\ UNCHANGED <<vars, t, l, b0>>

TraceNext == Properties /\ (TWrite \/ TDel \/ TEnv \/ TUnenv \/ TPrj \/ TMove \/ TBegin \/ TStart \/ TNoStart \/ TStep \/ TCrash \/ TDone)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
