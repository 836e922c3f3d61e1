------------------------------ MODULE AkProcMC ------------------------------
(* All short commands in all interleavings of processes and the build. *)
EXTENDS AkProc, Json
CONSTANTS Size,  \* steps of a command
          Cmds   \* number of commands
W(s, d) == [op |-> "w", s |-> s, d |-> d]
Steps == {W(1, "a"), W(1, "bcd"), W(2, "e"), W(2, "fgh"), [op |-> "c", s |-> 1], [op |-> "c", s |-> 2], [op |-> "f"],
          [op |-> "x", n |-> 0], [op |-> "x", n |-> 3], [op |-> "k"]}
Ends1 == {"x", "k"}
\* Nothing follows an end, one process is left behind at most
Sane(q) == /\ \A i \in 1..(Len(q) - 1) : q[i].op \notin Ends1
           /\ Cardinality({i \in 1..Len(q) : q[i].op = "f"}) <= 1
Cmd(k) == {[k |-> "run", q |-> q] : q \in {x \in UNION {[1..m -> Steps] : m \in 0..k} : Sane(x)}}
Second == {[k |-> "run", q |-> <<W(1, "z"), W(2, "y")>>], [k |-> "run", q |-> <<[op |-> "x", n |-> 1]>>]}
PInit == \E p \in [1..1 -> Cmd(Size)] \cup (IF Cmds > 1 THEN {<<x, y>> : x \in Cmd(Size), y \in Second} ELSE {}) : PInit0(p)
\* Each part of the system makes progress
PSpec == PInit /\ [][PNext]_pvars /\ WF_pvars(Begin) /\ WF_pvars(Step("main")) /\ WF_pvars(Step("late")) /\ \A s \in Streams : WF_pvars(Read(s))
Out == res # "run" => PrintT(<<"PROG", ToJson(prog)>>)
Stuck == res = "run" => ENABLED PNext
=============================================================================
