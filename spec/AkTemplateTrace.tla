--------------------------- MODULE AkTemplateTrace ---------------------------
(* Results of given templates with given variables. *)
EXTENDS AkTemplate, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
Fun(f) == IF f = <<>> THEN [x \in {} |-> <<>>] ELSE f
TInit == c \in 1..Len(Cases) /\ Init0(Fun(Cases[c].vs))
TNext == /\ (IF Len(tpl) < Len(Cases[c].tpl) THEN Read(Cases[c].tpl[Len(tpl) + 1])
             ELSE End /\ PrintT(<<"OUT", c, ToJson(out')>>))
         /\ UNCHANGED c
TSpec == TInit /\ [][TNext]_<<tvars, c>>
=============================================================================
