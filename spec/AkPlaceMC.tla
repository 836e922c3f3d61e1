----------------------------- MODULE AkPlaceMC -----------------------------
(* All runs in a small tree with up to two links. Final states are printed for replay. *)
EXTENDS AkPlace, TLC, Json
CONSTANTS Size,    \* max number of names in the name of the cache
          Links    \* max number of links

D == [k |-> "d"]
F == [k |-> "f"]
Base == (<<"p">> :> D) @@ (<<"p", "Autark">> :> F) @@ (<<"p", "a.txt">> :> F) @@ (<<"p", "s">> :> D) @@ (<<"p", "s", "x">> :> F)
        @@ (<<"o">> :> D) @@ (<<"o", "y">> :> F)
Targets == {<<>>, <<"p">>, <<"p", "s">>, <<"o">>, <<"n">>, <<"l">>, <<"p", "l">>, <<"o", "l">>}
Places(n) == {<<n>>, <<"p", n>>, <<"o", n>>, <<"p", "s", n>>}
L(t) == [k |-> "l", to |-> t]
Trees == {Base} \cup (IF Links < 1 THEN {} ELSE {(a :> L(t)) @@ Base : a \in Places("l"), t \in Targets})
         \cup (IF Links < 2 THEN {} ELSE {(a :> L(t)) @@ (b :> L(u)) @@ Base : a \in Places("l"), b \in Places("m"), t \in Targets, u \in Targets})
Names == {"..", ".", "s", "o", "p", "n", "l", "m"}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE LET w == Words(n - 1) IN w \cup {Append(q, x) : q \in {q \in w : Len(q) = n - 1}, x \in Names}
\* Names which stay inside of the tree
RECURSIVE Depth(_, _)
Depth(d, q) == IF q = <<>> THEN TRUE ELSE IF Head(q) = ".." THEN (IF d = 0 THEN FALSE ELSE Depth(d - 1, Tail(q)))
               ELSE Depth(IF Head(q) = "." THEN d ELSE d + 1, Tail(q))
RECURSIVE Canon(_)
Canon(q) == ~\E n \in 1..Len(q) : q[n] = "m" /\ Links < 2
Hs == {[abs |-> b, q |-> w] : b \in BOOLEAN, w \in {w \in Words(Size) : w # <<>> /\ Canon(w)}}
Ok(f, g) == LET r == Real(f, g.dir)
            IN /\ (g.dir # <<"p">> => g.dir \in DOMAIN f)
               /\ (r.ok => Depth(IF g.h.abs THEN 0 ELSE Len(r.p), g.h.q))
               /\ (r.ok /\ r.p = <<"p">>)
PInit == \E f \in Trees : \E h \in Hs : \E d \in {<<"p">>, <<"l">>, <<"o", "l">>} : \E c \in BOOLEAN :
           Ok(f, [dir |-> d, h |-> h, clean |-> c]) /\ Run0(f, [dir |-> d, h |-> h, clean |-> c])
List(f) == {<<q, f[q]>> : q \in DOMAIN f}
MCNext == PNext /\ (step' = "end" => PrintT(<<"RUN", ToJson([files |-> List(before), given |-> given, result |-> result', cache |-> cache', after |-> List(files')])>>))
MCSpec == PInit /\ [][MCNext]_pvars
=============================================================================
