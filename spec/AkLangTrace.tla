---------------------------- MODULE AkLangTrace ----------------------------
(* Validation of messages and commands recorded from real builds against AkLang. *)
EXTENDS AkLangRun, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLE i
TInit == i \in 1..Len(Cases) /\ Load(Cases[i])

Verdict ==
  ph = "done" =>
    IF Cases[i].ok = (st.err = "") /\ Cases[i].ev = st.ev THEN TRUE
    ELSE PrintT(<<"BAD", i, ToJson([err |-> st.err, ev |-> st.ev])>>)

TNext == Phases /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_<<lvars, i>>
=============================================================================
