------------------------------ MODULE AkJobsMC ------------------------------
(* All schedules of small projects; histories of builds are printed for replay. *)
EXTENDS AkJobs, Json
CONSTANTS Configs, MaxBuilds, MaxEdits, Print1

VARIABLE hist   \* sequence of [ed |-> edited sources, rel |-> sequence of <<source, ok>>, res |-> result]
mvars == <<vars, hist>>

MInit == (\E c \in Configs : InitWith(c)) /\ hist = <<>>

Last == hist[Len(hist)]
MBegin == /\ nb < MaxBuilds
          /\ (IF nb = 0 THEN TRUE ELSE (stale # {} \/ Len(cfg.n) > 0))
          /\ \E E \in SUBSET Sources(cfg) :
               /\ IF nb = 0 THEN E = {} ELSE Cardinality(E) <= MaxEdits
               /\ Begin(E)
               /\ hist' = Append(hist, [ed |-> E, rel |-> <<>>, res |-> ""])
\* Exit is explored when nothing can be started (what the schedule controller does) if Print1, at any time otherwise
MExit == \E s \in live, ok \in BOOLEAN :
           /\ IF Print1 THEN Saturated ELSE TRUE
           /\ Exit(s, ok)
           /\ hist' = [hist EXCEPT ![Len(hist)].rel = Append(@, [s |-> s, ok |-> ok])]
MEnd == (Fail \/ Finish) /\ hist' = [hist EXCEPT ![Len(hist)].res = res']
            /\ IF Print1 /\ nb = MaxBuilds THEN PrintT(<<"SCHED", ToJson([n |-> cfg.n, req |-> cfg.req, h |-> hist'])>>) ELSE TRUE
First(S) == CHOOSE s \in S : \A q \in S : s[2] <= q[2]
MLaunch == /\ pend # {} /\ Launch(First(pend)) /\ UNCHANGED hist
MNext == MBegin \/ MExit \/ MEnd \/ MLaunch
         \/ ((CmdStart \/ CmdEnd \/ Skip) /\ UNCHANGED hist)

MSpec == MInit /\ [][MNext]_mvars
FairSpec == MSpec /\ WF_mvars(MLaunch \/ MExit \/ MEnd \/ ((CmdStart \/ CmdEnd \/ Skip) /\ UNCHANGED hist))
BuildsEnd == (ph = "build") ~> (ph = "idle")
=============================================================================
