------------------------------ MODULE AkCliMC ------------------------------
(* All short command lines: the result of each is printed. *)
EXTENDS AkCli, Json
CONSTANTS Size, Part, Parts
Tokens == <<"-I", "-v", "-l", "-c", "-V", "-DA=1", "-DA", "-DB=x y", "-D", "A=2", "-R", "p", "-Rp", "--prefix=../q/./r", "--prefix", "--bindir=b", "--libdir", "l",
            "-J", "4", "-J0", "-Jx", "-IDA=3", "--", "proj", "./proj/../proj/", "nodir", "--nosuch", "-z", "--install", "--options", "-h", "-Hcc", "--cache=c/d",
            "--clean", "--version", "-cI", "-lV", "--install=1", "-DA=a=b", "--jobs=2", "--mandir=m/n", "--datadir", "--includedir=i", "--pkgconfdir=k", "-H..",
            "glob", "set", "-C", "-Cproj", "--dir=proj", "*.txt", "-DINSTALL_X=1", "-D=1", "--help", "-R/">>
\* These are not decided: two folders, options of commands, a prefix which can't be written, definitions without names
Decided == /\ ~(cf.folder # None /\ cf.cmd # None)
           /\ (cf.cmd # None => \A i \in 1..Len(cf.params) : ~StartsWith(cf.params[i], "-"))
           /\ \A i \in 1..Len(cf.defs) : DefName(cf.defs[i]) # ""
           /\ cf.val["R"] # "/"
Cwd == "/T/W"
Home == "/T/h"
Shown(r) == [args |-> args, res |-> Outcome(Cwd, r), decided |-> Decided, root |-> Root(Cwd), cache |-> Cache(Cwd), install |-> Install, prefix |-> Prefix(Cwd, Home), dirs |-> Dirs,
          A |-> Last(cf.defs, "A"), B |-> Last(cf.defs, "B"), X |-> Last(cf.defs, "INSTALL_X"), clean |-> "c" \in cf.on, globbed |-> IF Outcome(Cwd, r) = "glob" THEN Globbed(Cwd) ELSE <<>>]
\* Lines are split among several runs by their first token
Firsts == {i \in 1..Len(Tokens) : i % Parts = Part}
Lines == {<<>>} \cup UNION {{<<Tokens[f]>> \o [k \in 1..n |-> Tokens[g[k]]] : f \in Firsts, g \in [1..n -> 1..Len(Tokens)]} : n \in 0..Size - 1}
MCInit == \E a \in Lines : CInit0(a)
MCNext == \/ (Opt /\ (res' # "" => PrintT(<<"CLI", ToJson([args |-> args, res |-> res', decided |-> TRUE])>>)))
          \/ Bare
          \/ (Done /\ PrintT(<<"CLI", ToJson(Shown(Decision))>>))
MCSpec == MCInit /\ [][MCNext]_cvars
FairSpec == MCInit /\ [][CNext]_cvars /\ WF_cvars(CNext)
(* A definition is not lost, whatever else is given *)
Later == [][res # "" => res' = res]_cvars
\* Installation is on exactly when it was asked for and nothing is done outside of prefix and of cache
Inside == (res = "build" /\ Outcome(Cwd, res) = "build" /\ ~Install) => Above(Root(Cwd), Cache(Cwd)) \/ cf.val["H"] # None
=============================================================================
