---------------------------- MODULE AkTemplateMC ----------------------------
(* All short templates. Results with two assignments of variables are printed for replay. *)
EXTENDS AkTemplate, Json
CONSTANTS Size,   \* number of pieces
          Mode    \* "free" | "dir": a directive is started
Start == IF Mode = "dir" THEN <<"//autarkdef", " ">> ELSE <<>>
Alpha == {"@", "A", "U", "L", "x", " ", "\n", "//autarkdef", "\"", "1"}

Env1 == [x \in {"A", "L", "E"} |-> CASE x = "A" -> <<"v@A@w">> [] x = "L" -> <<"a", "b \"c">> [] OTHER -> <<"">>]
Env2 == [x \in {"A", "U", "AA", "A A"} |-> CASE x = "A" -> <<"w">> [] x = "U" -> <<"u">> [] x = "AA" -> <<"1">> [] OTHER -> <<"sp">>]
Envs == {Env1, Env2, [x \in {"A"} |-> <<"w">>], [x \in {"U"} |-> <<"u">>]}

MCInit == tpl = Start /\ vs = Env1 /\ line = Start /\ out = <<>> /\ used = {} /\ eof = FALSE
MCNext == \/ /\ Len(tpl) - Len(Start) < Size /\ \E p \in Alpha : Read(p)
          \/ End /\ PrintT(<<"TPL", ToJson(<<tpl, out', Expand(Env2, tpl)>>)>>)
MCSpec == MCInit /\ [][MCNext]_tvars
Only == OnlyUsed(Envs)
=============================================================================
