------------------------------- MODULE AkJobs -------------------------------
(* Parallel compilation. A project has a sequence of `cc' rules (groups); the objects of a group are consumed
   by one command (`run') which is built before the next group. Sources are <<group, index>>.

   Compilers of one group run in parallel, at most Eff(J) of them; a new one is started as soon as another
   one exits; all sources are attempted even if some of them fail; the rule is over when no compiler is left;
   after a failure nothing else is started. The next build compiles sources which failed or were edited.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,     \* [n |-> <<sizes of groups>>, req |-> requested number of jobs, "" if none]
  stale,   \* sources to be compiled by the next build
  dirty,   \* groups whose command must be executed
  ph,      \* "idle", "build"
  g,       \* current group
  pend,    \* sources of the group which wait
  live,    \* running compilers
  bad,     \* sources of the group whose compiler failed
  cmd,     \* the command of a group: "no", "live"
  done,    \* sources compiled in this build, with results
  res,     \* result of the last build
  nb       \* number of builds started

vars == <<cfg, stale, dirty, ph, g, pend, live, bad, cmd, done, res, nb>>

Eff(req) == IF req = "" THEN 4
            ELSE IF req \in {"0", "-1", "-5"} THEN 4
            ELSE IF req \in {"17", "40", "1000"} THEN 16
            ELSE CHOOSE k \in 1..16 : ToString(k) = req

Sources(c) == UNION {{<<x, i>> : i \in 1..c.n[x]} : x \in 1..Len(c.n)}
OfGroup(S, x) == {s \in S : s[1] = x}
J == Eff(cfg.req)

InitWith(c) ==
  /\ cfg = c /\ stale = Sources(c) /\ dirty = 1..Len(c.n)
  /\ ph = "idle" /\ g = 0 /\ pend = {} /\ live = {} /\ bad = {} /\ cmd = "no" /\ done = <<>> /\ res = "none" /\ nb = 0

\* Sources E were edited since the last build
Begin(E) ==
  /\ ph = "idle"
  /\ stale' = stale \cup E
  /\ ph' = "build" /\ g' = 1 /\ pend' = OfGroup(stale', 1) /\ live' = {} /\ bad' = {} /\ cmd' = "no"
  /\ done' = <<>> /\ res' = "none" /\ nb' = nb + 1
  /\ UNCHANGED <<cfg, dirty>>

Launch(s) ==
  /\ ph = "build" /\ s \in pend /\ Cardinality(live) < J /\ cmd = "no"
  /\ pend' = pend \ {s} /\ live' = live \cup {s}
  /\ UNCHANGED <<cfg, stale, dirty, ph, g, bad, cmd, done, res, nb>>

Exit(s, ok) ==
  /\ ph = "build" /\ s \in live
  /\ live' = live \ {s}
  /\ bad' = IF ok THEN bad ELSE bad \cup {s}
  /\ stale' = IF ok THEN stale \ {s} ELSE stale
  /\ dirty' = dirty \cup {g}
  /\ done' = Append(done, <<s, ok>>)
  /\ UNCHANGED <<cfg, ph, g, pend, cmd, res, nb>>

GroupOver == ph = "build" /\ g <= Len(cfg.n) /\ pend = {} /\ live = {} /\ cmd = "no"

Fail == GroupOver /\ bad # {} /\ ph' = "idle" /\ res' = "fail"
        /\ UNCHANGED <<cfg, stale, dirty, g, pend, live, bad, cmd, done, nb>>

CmdStart == GroupOver /\ bad = {} /\ g \in dirty /\ cmd' = "live"
            /\ UNCHANGED <<cfg, stale, dirty, ph, g, pend, live, bad, done, res, nb>>

NextGroup ==
  /\ g' = g + 1 /\ pend' = OfGroup(stale, g + 1) /\ bad' = {} /\ cmd' = "no"

CmdEnd == ph = "build" /\ cmd = "live" /\ dirty' = dirty \ {g} /\ NextGroup
          /\ UNCHANGED <<cfg, stale, ph, live, done, res, nb>>

Skip == GroupOver /\ bad = {} /\ g \notin dirty /\ NextGroup
        /\ UNCHANGED <<cfg, stale, dirty, ph, live, done, res, nb>>

Finish == ph = "build" /\ g = Len(cfg.n) + 1 /\ ph' = "idle" /\ res' = "ok"
          /\ UNCHANGED <<cfg, stale, dirty, g, pend, live, bad, cmd, done, nb>>

\* No compiler can be started now: the build waits for one of those which run
Saturated == Cardinality(live) = J \/ pend = {}

-----------------------------------------------------------------------------
(* Properties *)
Bound == Cardinality(live) <= J /\ Cardinality(live) <= 16
OneGroup == \A s \in live : s[1] = g
Alone == cmd = "live" => live = {} /\ pend = {}
OncePerBuild == \A a, b \in 1..Len(done) : done[a][1] = done[b][1] => a = b
\* A build which failed attempted all stale sources of the group, and nothing of following groups
AllAttempted == res = "fail" /\ ph = "idle" => \A s \in OfGroup(stale, g) : \E a \in 1..Len(done) : done[a][1] = s /\ ~done[a][2]
NothingAfter == \A a \in 1..Len(done) : done[a][1][1] <= g
Complete == res = "ok" /\ ph = "idle" => stale = {} /\ dirty = {}
FailedStaysStale == \A a \in 1..Len(done) : ~done[a][2] => done[a][1] \in stale
=============================================================================
