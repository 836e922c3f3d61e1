------------------------------- MODULE AkProc -------------------------------
(***************************************************************************)
(* Commands of a build and their output.                                   *)
(*                                                                         *)
(* A command is a process, it may leave another one behind which goes on   *)
(* when the first one is over. Standard output and standard error are      *)
(* pipes of a limited size, the build passes on what it reads from them.   *)
(* A command is over when its process is and nobody can write to the pipes.*)
(*                                                                         *)
(* Command: [k |-> "run" | "value", q |-> Seq of steps]                    *)
(* Step: [op |-> "w", s |-> 1 | 2, d |-> text]  text is written            *)
(*       [op |-> "c", s |-> 1 | 2]              a stream is closed         *)
(*       [op |-> "f"]    the rest is done by a process which is left behind*)
(*       [op |-> "x", n |-> status]             exit                       *)
(*       [op |-> "k"]                           killed by a signal         *)
(*       [op |-> "s"]                           time passes                *)
(***************************************************************************)
EXTENDS AkText, SequencesExt, Integers

CONSTANTS Cap,    \* size of a pipe
          Chunk   \* how much is read at once at most

VARIABLES
  prog,   \* commands
  n,      \* current command, 0 before the first one
  main,   \* its process: steps which are left
  late,   \* the process left behind: steps which are left
  open,   \* streams: processes which can write to them
  code,   \* status of the process: Running | 0..255 | Killed
  pipe,   \* what is not read yet
  rd,     \* streams which the build still reads
  wr,     \* all what was written by the command
  out,    \* Seq of <<stdout, stderr>> passed on for each command started so far
  res     \* "run" | "ok" | "fail"
pvars == <<prog, n, main, late, open, code, pipe, rd, wr, out, res>>

Running == -1
Killed == 256
\* TLA+ has no escape for a vertical tab
VTab == ""
Streams == {1, 2}
Both(x) == [s \in Streams |-> x]

PInit0(p) == /\ prog = p /\ n = 0 /\ main = <<>> /\ late = <<>> /\ open = Both({}) /\ code = 0 /\ pipe = Both("")
             /\ rd = {} /\ wr = Both("") /\ out = <<>> /\ res = "run"

Over == code # Running /\ rd = {}

\* The next command is started, or the build is over
Begin ==
  /\ res = "run" /\ Over
  /\ IF n > 0 /\ code # 0 THEN res' = "fail" /\ UNCHANGED <<n, main, late, open, code, pipe, rd, wr, out>>
     ELSE IF n = Len(prog) THEN res' = "ok" /\ UNCHANGED <<n, main, late, open, code, pipe, rd, wr, out>>
     ELSE /\ n' = n + 1 /\ main' = prog[n + 1].q /\ late' = <<>>
          /\ open' = Both({"main"}) /\ code' = Running /\ pipe' = Both("") /\ rd' = Streams /\ wr' = Both("")
          /\ out' = Append(out, Both("")) /\ UNCHANGED res
  /\ UNCHANGED prog

Left(who) == IF who = "main" THEN main ELSE late
\* Process `who' has q left to do
Go(who, q) == IF who = "main" THEN main' = q /\ UNCHANGED late ELSE late' = q /\ UNCHANGED main

Min2(a, b) == IF a < b THEN a ELSE b

\* A process writes as much as there is room for; nothing happens with a closed stream
Write(who) ==
  LET x == Head(Left(who))
      room == Cap - Len(pipe[x.s])
      m == Min2(room, Len(x.d))
  IN /\ x.op = "w"
     /\ IF who \notin open[x.s] \/ x.d = "" THEN Go(who, Tail(Left(who))) /\ UNCHANGED <<pipe, wr>>
        ELSE /\ m > 0
             /\ pipe' = [pipe EXCEPT ![x.s] = @ \o SubSeq(x.d, 1, m)]
             /\ wr' = [wr EXCEPT ![x.s] = @ \o SubSeq(x.d, 1, m)]
             /\ Go(who, IF m = Len(x.d) THEN Tail(Left(who)) ELSE <<[x EXCEPT !.d = SubSeq(@, m + 1, Len(@))]>> \o Tail(Left(who)))
     /\ UNCHANGED <<open, code>>

Close(who) ==
  LET x == Head(Left(who))
  IN /\ x.op = "c" /\ open' = [open EXCEPT ![x.s] = @ \ {who}]
     /\ Go(who, Tail(Left(who))) /\ UNCHANGED <<pipe, wr, code>>

Sleep(who) == Head(Left(who)).op = "s" /\ Go(who, Tail(Left(who))) /\ UNCHANGED <<open, pipe, wr, code>>

\* The process ends, another one does what is left
Fork ==
  /\ Head(main).op = "f" /\ main' = <<>> /\ late' = Tail(main)
  /\ open' = [s \in Streams |-> IF "main" \in open[s] THEN (open[s] \ {"main"}) \cup {"late"} ELSE open[s]]
  /\ code' = 0 /\ UNCHANGED <<pipe, wr>>

\* End of a process
End(who) ==
  /\ IF Left(who) = <<>> THEN TRUE ELSE Head(Left(who)).op \in {"x", "k"}
  /\ IF who = "main"
     THEN /\ code' = IF main = <<>> THEN 0 ELSE IF Head(main).op = "x" THEN Head(main).n ELSE Killed
          /\ main' = <<>> /\ UNCHANGED late
     ELSE late' = <<>> /\ UNCHANGED <<main, code>>
  /\ open' = [s \in Streams |-> open[s] \ {who}]
  /\ UNCHANGED <<pipe, wr>>

Step(who) ==
  /\ IF who = "main" THEN code = Running ELSE \E s \in Streams : "late" \in open[s]
  /\ \/ End(who)
     \/ IF Left(who) = <<>> THEN FALSE ELSE Write(who) \/ Close(who) \/ Sleep(who) \/ (who = "main" /\ Fork)
  /\ UNCHANGED <<prog, n, rd, out, res>>

\* The build reads, or learns that nothing more comes
Read(s) ==
  /\ s \in rd
  /\ IF pipe[s] # ""
     THEN /\ LET m == Min2(Chunk, Len(pipe[s]))
             IN /\ out' = [out EXCEPT ![n][s] = @ \o SubSeq(pipe[s], 1, m)]
                /\ pipe' = [pipe EXCEPT ![s] = SubSeq(@, m + 1, Len(@))]
          /\ UNCHANGED rd
     ELSE open[s] = {} /\ rd' = rd \ {s} /\ UNCHANGED <<out, pipe>>
  /\ UNCHANGED <<prog, n, main, late, open, code, wr, res>>

PNext == Begin \/ Step("main") \/ Step("late") \/ \E s \in Streams : Read(s)

-----------------------------------------------------------------------------
(* What is to be expected of commands *)

\* Text written to a stream by steps; w: the stream is open
RECURSIVE Text(_, _, _)
Text(q, s, w) ==
  IF q = <<>> THEN ""
  ELSE CASE Head(q).op = "w" -> (IF Head(q).s = s /\ w THEN Head(q).d ELSE "") \o Text(Tail(q), s, w)
         [] Head(q).op = "c" -> Text(Tail(q), s, w /\ Head(q).s # s)
         [] Head(q).op \in {"x", "k"} -> ""
         [] OTHER -> Text(Tail(q), s, w)
\* Status of a command
RECURSIVE Status(_)
Status(q) == IF q = <<>> \/ Head(q).op = "f" THEN 0
             ELSE IF Head(q).op = "x" THEN Head(q).n ELSE IF Head(q).op = "k" THEN Killed ELSE Status(Tail(q))

Fine(p) == \A i \in 1..Len(p) : Status(p[i].q) = 0
Started(p) == IF Fine(p) THEN Len(p) ELSE CHOOSE i \in 1..Len(p) : Status(p[i].q) # 0 /\ \A j \in 1..(i - 1) : Status(p[j].q) = 0
Passed(p) == [i \in 1..Started(p) |-> [s \in Streams |-> Text(p[i].q, s, TRUE)]]

\* Value of a captured output
RECURSIVE LastInk(_, _, _)
\* Position of the last character in lo..hi which is not white space, or 0
LastInk(t, lo, hi) ==
  IF lo > hi THEN 0 ELSE IF lo = hi THEN (IF IsSpace(Ch(t, lo)) \/ Ch(t, lo) = VTab THEN 0 ELSE lo)
  ELSE LET mid == (lo + hi) \div 2
           b == LastInk(t, mid + 1, hi)
       IN IF b > 0 THEN b ELSE LastInk(t, lo, mid)
Value(q) == LET t == Text(q, 1, TRUE) IN SubSeq(t, 1, LastInk(t, 1, Len(t)))

-----------------------------------------------------------------------------
(* Properties *)

\* Nothing is lost, added or reordered on the way
Kept == n > 0 => \A s \in Streams : out[n][s] \o pipe[s] = wr[s]
\* All is passed on when a command is over, before the next one starts
Complete == res # "run" => (out = Passed(prog) /\ (res = "ok" <=> Fine(prog)))
\* A command does not start before the previous one is over, nor after a failed one
Ordered == \A i \in 1..(n - 1) : Status(prog[i].q) = 0 /\ out[i] = [s \in Streams |-> Text(prog[i].q, s, TRUE)]
Ends == <>(res # "run")
=============================================================================
