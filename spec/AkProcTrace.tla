----------------------------- MODULE AkProcTrace -----------------------------
(* Output recorded from real builds: [prog, out: Seq of <<stdout, stderr>>, ok, vals: command -> value] *)
EXTENDS AkProc, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
Fun(f) == IF f = <<>> THEN [x \in {} |-> ""] ELSE f
Diff(o, e) == IF Len(o) # Len(e) THEN <<"commands", Len(o), Len(e)>>
              ELSE LET i == CHOOSE i \in 1..Len(e) : o[i][1] # e[i][1] \/ o[i][2] # e[i][2]
                       s == IF o[i][1] # e[i][1] THEN 1 ELSE 2
                   IN <<"command", i, "stream", s, "recorded", Len(o[i][s]), "expected", Len(e[i][s])>>
Wrong(x) ==
  LET e == IF x.again THEN <<>> ELSE Passed(x.prog)   \* cached values are there in the second build
      f == Fun(x.vals)
      vs == {i \in 1..Len(x.prog) : ToString(i) \in DOMAIN f}
  IN IF x.ok # Fine(x.prog) THEN <<"status", x.ok>>
     ELSE IF x.again /\ x.work THEN <<"nothing has changed, but products were made again">>
     ELSE IF [i \in 1..Len(x.out) |-> <<x.out[i][1], x.out[i][2]>>] # [i \in 1..Len(e) |-> <<e[i][1], e[i][2]>>] THEN Diff(x.out, e)
     ELSE IF \E i \in vs : f[ToString(i)] # Value(x.prog[i].q)
     THEN LET i == CHOOSE i \in vs : f[ToString(i)] # Value(x.prog[i].q) IN <<"value", i, Len(f[ToString(i)]), Len(Value(x.prog[i].q))>>
     ELSE <<>>
TInit == c \in 1..Len(Cases) /\ PInit0(<<>>)
TNext == FALSE /\ UNCHANGED <<pvars, c>>
TSpec == TInit /\ [][TNext]_<<pvars, c>>
Judge == LET w == Wrong(Cases[c]) IN w = <<>> \/ PrintT(<<"BAD", c, ToJson(w)>>)
=============================================================================
