----------------------------- MODULE AkJobsTrace -----------------------------
(* Validation of recorded compilations. Events of a trace, in the order in which they were logged:
     B edited  a build starts        S src  a compiler has started     E src ok  a compiler is about to exit
     W         the schedule controller saw that no other compiler starts while all started ones are blocked
     R / r     the command of a group starts / ends      X res  the build is over                             *)
EXTENDS AkJobs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, seen   \* seen: compilers whose start was logged; they are launched before
tvars == <<vars, t, l, seen>>

Evs == Traces[t].ev
Ev == Evs[l]
Is(e) == l <= Len(Evs) /\ Ev.e = e
Adv == l' = l + 1 /\ UNCHANGED t
Set(q) == {q[i] : i \in 1..Len(q)}

TInit == t \in 1..Len(Traces) /\ l = 1 /\ seen = {} /\ InitWith([n |-> Traces[t].n, req |-> Traces[t].req])

TB == Is("B") /\ Begin(Set(Ev.ed)) /\ seen' = {} /\ Adv
TS == Is("S") /\ Launch(Ev.s) /\ seen' = seen \cup {Ev.s} /\ Adv
TE == Is("E") /\ Ev.s \in seen /\ Exit(Ev.s, Ev.ok) /\ seen' = seen /\ Adv
TW == Is("W") /\ Saturated /\ Adv /\ UNCHANGED <<vars, seen>>
TR == Is("R") /\ Ev.g = g /\ CmdStart /\ Adv /\ UNCHANGED seen
Tr == Is("r") /\ Ev.g = g /\ CmdEnd /\ Adv /\ UNCHANGED seen
TX == Is("X") /\ (Fail \/ Finish) /\ res' = Ev.res /\ Adv /\ UNCHANGED seen
THidden == Skip /\ UNCHANGED <<t, l, seen>>
TDone == l = Len(Evs) + 1 /\ l' = l + 1 /\ PrintT(<<"ACCEPT", t>>) /\ UNCHANGED <<vars, t, seen>>

Sound == Bound /\ OneGroup /\ Alone /\ OncePerBuild /\ AllAttempted /\ NothingAfter /\ Complete /\ FailedStaysStale
TNext == Sound /\ (TB \/ TS \/ TE \/ TW \/ TR \/ Tr \/ TX \/ THidden \/ TDone)
                  /\ (IF l' > l THEN PrintT(<<"AT", t, l>>) ELSE TRUE)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
