------------------------------ MODULE AkGlobMC ------------------------------
(* All short patterns over a tree of files. *)
EXTENDS AkGlob, Json
CONSTANT Size
VARIABLES pat, n
Pieces == {"a", "b", "*", "?", "[ab]", "[!a]", "[a-c]", "[", "]", ".", "/", "-", "\\*", "d"}
Files == {<<"a">>, <<"b">>, <<"ab">>, <<"ba">>, <<".a">>, <<"a.b">>, <<"-">>, <<"c-]">>, <<"d">>, <<"d", "a">>, <<"d", "b.a">>, <<"d", ".b">>, <<"ac">>, <<"ac", "b">>,
          <<"ac", "a">>, <<"ac", "d">>, <<"ac", "d", "a">>, <<"B">>, <<"[">>, <<"z">>}
T == [all |-> Files, folders |-> {<<"d">>, <<"ac">>, <<"ac", "d">>}]
\* A plain name of a file followed by "/" is left to the library
Plain(p) == EndsWith(p, "/") /\ ~(\E c \in {"*", "?", "["} : HasSub(p, c))
\* Patterns with "." and ".." come out of the tree; names starting from the root are not used
Fine(p) == ~StartsWith(p, "/") /\ ~HasSub(p, "..") /\ ~HasSub(p, "//")
GInit == pat = "" /\ n = 0
GNext == /\ n < Size /\ n' = n + 1
         /\ \E x \in Pieces : Fine(pat \o x) /\ pat' = pat \o x
         /\ (Plain(pat') \/ PrintT(<<"GLOB", ToJson([p |-> pat', r |-> Glob1(T, <<>>, pat'), q |-> Glob1(T, <<"ac">>, pat')])>>))
GSpec == GInit /\ [][GNext]_<<pat, n>>
R == Glob1(T, <<>>, pat)
\* Sorted, no name twice
Sorting == \A i \in 1..Len(R) - 1 : Less(R[i], R[i + 1])
\* Leading dots are given
Hidden == (~HasSub(pat, ".")) => \A i \in 1..Len(R) : ~HasSub(R[i], "/.") /\ ~StartsWith(R[i], ".")
\* Adding a star loses nothing
Wider == (~HasSub(pat, "/") /\ ~HasSub(pat, "[")) => \A i \in 1..Len(R) : Names(pat \o "*", R[i])
=============================================================================
