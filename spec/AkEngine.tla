------------------------------ MODULE AkEngine ------------------------------
(***************************************************************************)
(* Incremental build engine of autark.                                     *)
(*                                                                         *)
(* State: all files (sources, scripts, cache products, installed files)    *)
(* with contents and versions, persistent dependency records of rules, and *)
(* the volatile state of a running build.  One action per step of the      *)
(* implementation: a build begins, check scripts run (init phase),  rules  *)
(* are visited in script order with consumed products built first, a rule  *)
(* decides if it is up to date, forgets its record, starts commands,       *)
(* commands finish, the rule commits its record; a build completes, fails  *)
(* or is killed at any point.                                              *)
(*                                                                         *)
(* A project (prj) is a record                                             *)
(*   rules: Seq of rules, names: see below                                 *)
(* Rule: [id, k, g, args, scr, cons, outs, tasks...]                       *)
(*   k: "run" | "fe" | "cc" | "conf" | "check" | "subst" | "inst"          *)
(*   g: guards, Seq of [v: variable, pos: BOOLEAN]                         *)
(*   args: Seq of parts [t, v]:  t = "l" literal, "v" variable,            *)
(*         "w" variable split by spaces, "s" value of a subst rule,        *)
(*         "i" current foreach item, "j" item joined with a variable,      *)
(*         "jp" variable joined with the item                              *)
(*   scr: Seq of script paths of the enclosing units                       *)
(*   cons: Seq of <<cache candidate, source candidate>>                    *)
(*   vc: Seq of [v: variable, m: name -> such pair]: names of consumed     *)
(*         files are words of the variable (run, fe, cc)                   *)
(*   outs: Seq of products of "run"                                        *)
(*   ins: Seq of pairs read by the command of "run"/"fe"                   *)
(*   items: Seq of parts, items of "fe", sources of "cc", templates        *)
(*   imap: function item -> [in: pair, out: path, val: string,             *)
(*         der: Seq of pairs consumed on behalf of the item of "fe"]       *)
(*   fcons: the item itself is consumed by "fe"                            *)
(*   always, cached, garb: flags;  cc: part naming the compiler            *)
(***************************************************************************)
EXTENDS AkText, SequencesExt, Functions

CONSTANT Jobs       \* Max number of compilers running in parallel

VARIABLES
  prj,     \* current project
  fs,      \* path -> [c: content, v: version] of all existing files
  env,     \* process environment: name -> value
  opts,    \* -D options of the current (last) build: name -> value
  rec,     \* rule index -> dependency record
  clk,     \* version clock
  ph,      \* "idle" | "init" | "build" | "post"
  todo,    \* next rule in script order in this phase
  stack,   \* rules being visited: Seq of [r, i]
  built,   \* rules which are up to date in this build
  vals,    \* variables set by rules during this build
  pm,      \* product -> rule index, for active rules
  cur,     \* running rule
  res,     \* result of the last build: "none" | "ok" | "fail" | "crash"
  evs,     \* commands started in this build: Seq of [r, t, e]
  inst     \* installation requested

vars == <<prj, fs, env, opts, rec, clk, ph, todo, stack, built, vals, pm, cur, res, evs, inst>>

Empty == <<>>
NoRun == [r |-> 0, pend |-> <<>>, live |-> {}, failed |-> {}, all |-> TRUE, t |-> Empty]

R(i) == prj.rules[i]
Rules == 1..Len(prj.rules)
Txt(s) == [txt |-> s, inc |-> <<>>, par |-> <<[t |-> "l", v |-> s]>>, sc |-> <<>>]

Exists(p) == p \in DOMAIN fs
Ver(p) == IF Exists(p) THEN fs[p].v ELSE 0
Content(p) == fs[p].c.txt

----------------------------------------------------------------------------
\* Variables

Has(f, n) == n \in DOMAIN f
\* Value of a variable as <<val>> or <<>> if undefined
Lookup(n) ==
  IF Has(vals, n) THEN <<vals[n]>>
  ELSE IF Has(opts, n) THEN <<opts[n]>>
  ELSE IF Has(env, n) THEN <<env[n]>> ELSE <<>>
Val(n) == LET x == Lookup(n) IN IF x = <<>> THEN "" ELSE x[1]
Truthy(n) == LET v == Val(n) IN v # "" /\ v # "0"

Active(i) == \A k \in 1..Len(R(i).g) : Truthy(R(i).g[k].v) = R(i).g[k].pos

PartVals(p) ==
  CASE p.t = "l" -> <<p.v>>
    [] p.t = "v" -> (IF Val(p.v) = "" THEN <<>> ELSE <<Val(p.v)>>)
    [] p.t = "w" -> Words(Val(p.v))
    [] p.t \in {"j", "jp"} -> <<Val(p.v)>>
    [] p.t = "s" -> (IF Val("$" \o p.v) = "" THEN <<>> ELSE <<Val("$" \o p.v)>>)
    [] OTHER -> <<>>

RECURSIVE PartsVals(_)
PartsVals(q) == IF q = <<>> THEN <<>> ELSE PartVals(Head(q)) \o PartsVals(Tail(q))

\* Arguments of the command executed for an item
RECURSIVE ItemArgs(_, _)
ItemArgs(q, val) ==
  IF q = <<>> THEN <<>>
  ELSE (CASE Head(q).t = "i" -> <<val>>
          [] Head(q).t = "j" -> <<val \o Val(Head(q).v)>>
          [] Head(q).t = "jp" -> <<Val(Head(q).v) \o val>>
          [] OTHER -> PartVals(Head(q))) \o ItemArgs(Tail(q), val)

\* Flags of a compiler: a single value is split by spaces, elements of a list are not
Flags(i) == IF Len(R(i).args) = 1 THEN Words(JoinStr(PartsVals(R(i).args), " ")) ELSE PartsVals(R(i).args)

\* Values tracked in the record of a rule (list of items of foreach included)
Items(i) == IF R(i).k \in {"fe", "cc", "conf"} THEN PartsVals(R(i).items) ELSE <<>>
CcName(i) == IF R(i).k = "cc" THEN (IF PartVals(R(i).cc) = <<>> THEN "" ELSE PartVals(R(i).cc)[1]) ELSE ""
\* Arguments are compared one by one
ArgKey(i) == <<[n \in 1..Len(R(i).args) |-> PartVals(R(i).args[n])], Items(i), CcName(i)>>

----------------------------------------------------------------------------
\* Tasks of a rule. A task is one command (or one file for configure, install)

Tasks(i) ==
  CASE R(i).k \in {"cc", "conf", "fe"} -> Items(i)
    [] R(i).k = "inst" -> [n \in 1..Len(R(i).cons) |-> R(i).cons[n][1]]
    [] OTHER -> <<"">>

\* Files consumed for an item of foreach
ItemIns(i, x) == (IF R(i).fcons THEN <<R(i).imap[x].in>> ELSE <<>>) \o R(i).imap[x].der

Outs(i) ==
  CASE R(i).k = "run" -> Range1(R(i).outs)
    [] R(i).k \in {"fe", "cc", "conf"} -> {R(i).imap[x].out : x \in Range1(Items(i))}
    [] OTHER -> {}

\* Files named by consumes{}
Named(i) == R(i).cons \o FoldLeft(LAMBDA a, c : a \o LET w == Words(Val(c.v)) IN [n \in 1..Len(w) |-> c.m[w[n]]], <<>>, R(i).vc)

\* Consumed files as <<cache candidate, source candidate>> in order of resolution
Consumed(i) ==
  CASE R(i).k = "run" -> Named(i)
    [] R(i).k = "fe" -> Named(i) \o FoldLeft(LAMBDA a, x : a \o ItemIns(i, x), <<>>, Items(i))
    [] R(i).k = "cc" -> [n \in 1..Len(Items(i)) |-> R(i).imap[Items(i)[n]].in] \o Named(i)
    [] R(i).k = "conf" -> [n \in 1..Len(Items(i)) |-> R(i).imap[Items(i)[n]].in]
    [] R(i).k = "inst" -> R(i).cons
    [] OTHER -> <<>>

\* Items of foreach are consumed after other files are resolved
ItemsFollow(i, n) == R(i).k = "fe" /\ n = Len(Named(i)) + 1

\* Sources of cc and files consumed by items of foreach must exist at the moment they are visited
CheckedAtOnce(i, n) == (R(i).k = "cc" /\ n <= Len(Items(i))) \/ (R(i).k = "fe" /\ n > Len(Named(i)))

Where(pr) == IF Exists(pr[1]) THEN pr[1] ELSE pr[2]
Found(pr) == Exists(pr[1]) \/ Exists(pr[2])

Logged(i) == R(i).k \in {"run", "fe", "cc", "check", "subst"}

Event(i, t) ==
  CASE R(i).k = "cc" -> <<CcName(i), R(i).imap[t].val, JoinStr(Flags(i), ",")>>
    [] R(i).k = "fe" -> <<R(i).id>> \o ItemArgs(R(i).args, R(i).imap[t].val)
    [] OTHER -> <<R(i).id>> \o PartsVals(R(i).args)

\* ---- Results of commands: [ok, out: path -> content]

IsBad(s) == StartsWith(s, "bad")

CmdResult(id, args, ins, outs, garb) ==
  LET fail == "bad" \in Range1(args) \/ \E n \in 1..Len(ins) : ~Found(ins[n]) \/ IsBad(Content(Where(ins[n])))
      base == id \o "(" \o JoinStr(args, ",")
      body == IF fail THEN "" ELSE
              base \o FoldLeft(LAMBDA a, p : a \o ";" \o Content(Where(p)), "", ins) \o ")"
  IN IF fail
     THEN [ok |-> FALSE, out |-> IF garb THEN [p \in Range1(outs) |-> "garbage"] ELSE Empty]
     ELSE [ok |-> TRUE, out |-> [p \in Range1(outs) |->
             LET n == CHOOSE n \in 1..Len(outs) : outs[n] = p
             IN IF n = 1 THEN body ELSE body \o "#" \o ToString(n)]]

\* Headers included by a compiled file: [ok, hs: Seq of paths in order of inclusion]
RECURSIVE Includes(_, _, _)
Includes(i, q, acc) ==
  IF q = <<>> THEN acc
  ELSE LET pr == R(i).hmap[Head(q)]
           p == Where(pr)
       IN IF ~Found(pr) THEN Includes(i, Tail(q), [acc EXCEPT !.ok = FALSE])
          ELSE IF \E n \in 1..Len(acc.hs) : acc.hs[n] = p THEN Includes(i, Tail(q), acc)
          ELSE Includes(i, Tail(q), Includes(i, fs[p].c.inc, [acc EXCEPT !.hs = Append(@, p)]))

CcResult(i, t) ==
  LET pr == R(i).imap[t].in
      src == Where(pr)
      inc == Includes(i, fs[src].c.inc, [ok |-> TRUE, hs |-> <<>>])
      bad == ~inc.ok \/ IsBad(Content(src)) \/ (\E n \in 1..Len(inc.hs) : IsBad(Content(inc.hs[n])))
             \/ "-bad" \in Range1(Flags(i))
      obj == R(i).imap[t].out
  IN [ok |-> ~bad,
      hs |-> Range1(inc.hs),
      out |-> IF bad THEN Empty ELSE (obj :>
        CcName(i) \o "(" \o JoinStr(Flags(i), ",") \o ";" \o Content(src)
        \o FoldLeft(LAMBDA a, h : a \o "|" \o Content(h), "", inc.hs) \o ")")]

\* Values are substituted in place of @NAME@, lists are joined by spaces
\* d, dq, dn: lines `//autarkdef NAME', `//autarkdef NAME "x"', `//autarkdef NAME 1'
ConfPart(p) ==
  CASE p.t = "l" -> p.v
    [] p.t = "v" -> Val(p.v)
    [] p.t = "d" -> (IF Lookup(p.v) = <<>> THEN "//autarkdef " \o p.v \o "\n" ELSE "#define " \o p.v \o "\n")
    [] p.t = "dq" -> (IF Lookup(p.v) = <<>> THEN "//autarkdef " \o p.v \o " \"x\"\n"
                      ELSE "#define " \o p.v \o " \"" \o Val(p.v) \o "\"\n")
    [] OTHER -> "#define " \o p.v \o (IF Lookup(p.v) = <<>> THEN " 0\n" ELSE " 1\n")
ConfText(par) == FoldLeft(LAMBDA a, p : a \o ConfPart(p), "", par)

TaskResult(i, t) ==
  CASE R(i).k = "run" -> CmdResult(R(i).id, PartsVals(R(i).args), R(i).ins, R(i).outs, R(i).garb)
    [] R(i).k = "fe" -> CmdResult(R(i).id, ItemArgs(R(i).args, R(i).imap[t].val),
                          ItemIns(i, t) \o R(i).ins, <<R(i).imap[t].out>>, R(i).garb)
    [] R(i).k = "cc" -> CcResult(i, t)
    [] R(i).k = "conf" -> [ok |-> TRUE, out |-> (R(i).imap[t].out :> ConfText(fs[Where(R(i).imap[t].in)].c.par))]
    [] R(i).k = "inst" ->
         LET n == CHOOSE n \in 1..Len(R(i).cons) : R(i).cons[n][1] = t
         IN [ok |-> TRUE, out |-> (R(i).outs[n] :> Content(Where(R(i).cons[n])))]
    [] R(i).k = "check" -> [ok |-> ~fs[R(i).script].c.sc[1].fail /\ "bad" \notin Range1(PartsVals(R(i).args)), out |-> Empty]
    [] OTHER -> [ok |-> "bad" \notin Range1(PartsVals(R(i).args)), out |-> Empty]

\* Files removed by a failed command (a compiler removes the object)
Removed(i, t, r) == IF R(i).k = "cc" /\ ~r.ok THEN {R(i).imap[t].out} ELSE {}

Write(f, out, v) == [p \in DOMAIN out |-> [c |-> Txt(out[p]), v |-> v]] @@ f
Drop(f, s) == [p \in DOMAIN f \ s |-> f[p]]

----------------------------------------------------------------------------
\* Variables set by a check script

ScriptParts(q, args) ==
  FoldLeft(LAMBDA a, p : a \o (CASE p.t = "l" -> p.v
                                 [] p.t = "e" -> (IF Has(env, p.v) THEN env[p.v] ELSE "")
                                 [] p.t = "a" -> (IF p.n <= Len(args) THEN args[p.n] ELSE "")
                                 [] OTHER -> (IF Exists(p.v) THEN Content(p.v) ELSE "")), "", q)
CheckSets(i) ==
  LET sc == fs[R(i).script].c.sc[1]
      args == PartsVals(R(i).args)
  IN FoldLeft(LAMBDA a, s : IF s.ce = "" \/ (Has(env, s.ce) /\ env[s.ce] = s.cv)
                            THEN (s.v :> ScriptParts(s.p, args)) @@ a ELSE a, Empty, sc.sets)

----------------------------------------------------------------------------
\* Records

SysEnv(n) == IF Has(env, n) THEN env[n] ELSE ""

ConfVars(i) == UNION {{p.v : p \in {q \in Range1(fs[Where(R(i).imap[t].in)].c.par) : q.t # "l"}} : t \in Range1(Items(i))}

Stamp(S) == {<<p, Ver(p)>> : p \in S}
\* A missing file is always out of date
Changed(S) == \E x \in S : Ver(x[1]) # x[2] \/ x[2] = 0

\* Files tracked for the whole rule
Common(i) ==
  Range1(R(i).scr) \cup
  (CASE R(i).k \in {"run", "fe", "cc"} -> {Where(pr) : pr \in Range1(Named(i))}
     [] R(i).k = "check" -> {R(i).script} \cup Range1(fs[R(i).script].c.sc[1].files)
     [] OTHER -> {})

\* Files tracked for a task
OfTask(i, t) ==
  CASE R(i).k = "fe" -> {Where(pr) : pr \in Range1(ItemIns(i, t))}
    [] R(i).k = "cc" -> {Where(R(i).imap[t].in)} \cup CcResult(i, t).hs
    [] R(i).k = "conf" -> {Where(R(i).imap[t].in)}
    [] R(i).k = "inst" ->
         LET n == CHOOSE n \in 1..Len(R(i).cons) : R(i).cons[n][1] = t IN {Where(R(i).cons[n]), R(i).outs[n]}
    [] OTHER -> {}

\* Consumed files as they are found: a file of the same name may appear or be gone
Resolved(i) ==
  LET q == CASE R(i).k \in {"run", "fe", "inst"} -> Consumed(i) [] R(i).k = "cc" -> Named(i) [] OTHER -> <<>>
  IN [n \in 1..Len(q) |-> Where(q[n])]

NewRec(i, failed, taskdeps) ==
  [key |-> ArgKey(i),
   loc |-> Resolved(i),
   com |-> Stamp(Common(i)),
   t   |-> [t \in Range1(Tasks(i)) |-> [fs |-> IF t \in DOMAIN taskdeps THEN taskdeps[t] ELSE Stamp(OfTask(i, t)),
                                        fail |-> t \in failed]],
   out |-> Stamp({p \in Outs(i) : Exists(p)}),
   vs  |-> IF R(i).k = "conf" THEN [n \in ConfVars(i) |-> Lookup(n)] ELSE Empty,
   es  |-> IF R(i).k = "check" THEN [n \in Range1(fs[R(i).script].c.sc[1].envs) |-> SysEnv(n)] ELSE Empty,
   al  |-> R(i).k = "check" /\ fs[R(i).script].c.sc[1].always,
   val |-> IF R(i).k = "subst" THEN vals["$" \o R(i).id] ELSE "",
   set |-> IF R(i).k = "check" THEN CheckSets(i) ELSE Empty]

HasRec(i) == i \in DOMAIN rec

\* The whole rule is out of date
AllOutdated(i) ==
  \/ ~HasRec(i)
  \/ R(i).always
  \/ rec[i].key # ArgKey(i)
  \/ rec[i].loc # Resolved(i)
  \/ Changed(rec[i].com)
  \/ Changed(rec[i].out)
  \/ \E n \in DOMAIN rec[i].vs : Lookup(n) # rec[i].vs[n]
  \/ \E n \in DOMAIN rec[i].es : SysEnv(n) # rec[i].es[n]
  \/ rec[i].al

TaskOutdated(i, t) == ~AllOutdated(i) /\ (rec[i].t[t].fail \/ Changed(rec[i].t[t].fs))

Outdated(i) == SelectSeq(Tasks(i), LAMBDA t : AllOutdated(i) \/ TaskOutdated(i, t))

----------------------------------------------------------------------------
\* Build

StopBuild(r) ==
  /\ ph' = "idle" /\ res' = r /\ stack' = <<>> /\ cur' = NoRun
  /\ UNCHANGED <<prj, env, opts, built, pm, inst>>

Fatal == StopBuild("fail") /\ UNCHANGED <<fs, rec, clk, todo, vals, evs>>

InCache(p) == StartsWith(p, "C:")

BuildBegin(o, clean, ins) ==
  /\ ph = "idle"
  /\ opts' = o
  /\ inst' = ins
  /\ fs' = IF clean THEN Drop(fs, {p \in DOMAIN fs : InCache(p)}) ELSE fs
  /\ rec' = IF clean THEN Empty ELSE rec
  /\ ph' = "init" /\ todo' = 1 /\ stack' = <<>> /\ built' = {} /\ vals' = Empty
  /\ pm' = Empty /\ cur' = NoRun /\ res' = "none" /\ evs' = <<>>
  /\ UNCHANGED <<prj, env, clk>>

Idle == stack = <<>> /\ cur.r = 0

\* Init phase: check scripts are executed in script order
InitCheck ==
  /\ ph = "init" /\ Idle /\ todo <= Len(prj.rules)
  /\ todo' = todo + 1
  /\ stack' = IF R(todo).k = "check" /\ Active(todo) THEN <<[r |-> todo, i |-> 1]>> ELSE <<>>
  /\ UNCHANGED <<prj, fs, env, opts, rec, clk, ph, built, vals, pm, cur, res, evs, inst>>

ActiveRules == {i \in Rules : R(i).k \notin {"check", "subst"} /\ Active(i)}
Conflict == \E i, j \in ActiveRules : i # j /\ Outs(i) \cap Outs(j) # {}

\* Setup phase: products are registered
Setup ==
  /\ ph = "init" /\ Idle /\ todo > Len(prj.rules)
  /\ IF Conflict
     THEN /\ StopBuild("fail") /\ UNCHANGED <<fs, rec, clk, todo, vals, evs>>
     ELSE /\ ph' = "build" /\ todo' = 1
          /\ pm' = [p \in UNION {Outs(i) : i \in ActiveRules} |-> CHOOSE i \in ActiveRules : p \in Outs(i)]
          /\ UNCHANGED <<prj, fs, env, opts, rec, clk, stack, built, vals, cur, res, evs, inst>>

\* Next rule in script order
NextRule ==
  /\ ph \in {"build", "post"} /\ Idle /\ todo <= Len(prj.rules)
  /\ todo' = todo + 1
  /\ LET k == R(todo).k
         mine == IF ph = "build" THEN k \in {"run", "fe", "cc", "conf"} ELSE k = "inst" /\ inst
     IN stack' = IF mine /\ Active(todo) /\ todo \notin built THEN <<[r |-> todo, i |-> 1]>> ELSE <<>>
  /\ UNCHANGED <<prj, fs, env, opts, rec, clk, ph, built, vals, pm, cur, res, evs, inst>>

PhaseEnd ==
  /\ ph \in {"build", "post"} /\ Idle /\ todo > Len(prj.rules)
  /\ IF ph = "build"
     THEN /\ ph' = "post" /\ todo' = 1
          /\ UNCHANGED <<prj, fs, env, opts, rec, clk, stack, built, vals, pm, cur, res, evs, inst>>
     ELSE StopBuild("ok") /\ UNCHANGED <<fs, rec, clk, todo, vals, evs>>

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Advance == [stack EXCEPT ![Len(stack)].i = @ + 1]

\* Producers of consumed files are built first
VisitConsumed ==
  /\ stack # <<>> /\ cur.r = 0
  /\ LET i == Top.r
         n == Top.i
         L == Consumed(i)
     IN /\ n <= Len(L)
        /\ LET p == L[n][1]
               q == IF p \in DOMAIN pm THEN pm[p] ELSE 0
               open == \E m \in 1..Len(stack) : stack[m].r = q
           IN IF ItemsFollow(i, n) /\ \E m \in 1..(n - 1) : ~Found(L[m]) THEN Fatal
              ELSE IF q # 0 /\ q \notin built
              THEN IF open THEN Fatal
                   ELSE /\ stack' = Append(stack, [r |-> q, i |-> 1])
                        /\ UNCHANGED <<prj, fs, env, opts, rec, clk, ph, todo, built, vals, pm, cur, res, evs, inst>>
              ELSE IF CheckedAtOnce(i, n) /\ ~Found(L[n]) /\ q = 0 THEN Fatal
              ELSE /\ stack' = Advance
                   /\ UNCHANGED <<prj, fs, env, opts, rec, clk, ph, todo, built, vals, pm, cur, res, evs, inst>>

Unresolved(i) == \E n \in 1..Len(Consumed(i)) : ~CheckedAtOnce(i, n) /\ ~Found(Consumed(i)[n])

\* First subst rule used in arguments of the rule i which is not evaluated yet (or 0)
NeedSubst(i) ==
  LET used == SelectSeq(R(i).args, LAMBDA p : p.t = "s" /\ ~Has(vals, "$" \o p.v))
  IN IF used = <<>> THEN 0 ELSE CHOOSE j \in Rules : R(j).k = "subst" /\ R(j).id = used[1].v

Ready == stack # <<>> /\ cur.r = 0 /\ Top.i > Len(Consumed(Top.r))

VisitSubst ==
  /\ Ready /\ ~Unresolved(Top.r) /\ NeedSubst(Top.r) # 0
  /\ stack' = Append(stack, [r |-> NeedSubst(Top.r), i |-> 1])
  /\ UNCHANGED <<prj, fs, env, opts, rec, clk, ph, todo, built, vals, pm, cur, res, evs, inst>>

\* Variables which became available with an up to date rule
Publish(i) ==
  CASE R(i).k = "check" -> rec[i].set @@ vals
    [] R(i).k = "subst" -> (("$" \o R(i).id) :> rec[i].val) @@ vals
    [] OTHER -> vals

Decide ==
  /\ Ready /\ (Unresolved(Top.r) \/ NeedSubst(Top.r) = 0)
  /\ LET i == Top.r
     IN IF Unresolved(i) THEN Fatal
        ELSE IF Outdated(i) = <<>>
        THEN /\ built' = built \cup {i}
             /\ stack' = Pop
             /\ vals' = Publish(i)
             /\ UNCHANGED <<prj, fs, env, opts, rec, clk, ph, todo, pm, cur, res, evs, inst>>
        ELSE \* The previous result is forgotten before commands are started
             /\ cur' = [r |-> i, pend |-> Outdated(i), live |-> {}, failed |-> {}, all |-> AllOutdated(i),
                        t |-> IF AllOutdated(i) THEN Empty
                              ELSE [t \in {x \in DOMAIN rec[i].t : ~TaskOutdated(i, x)} |-> rec[i].t[t].fs]]
             /\ rec' = [j \in DOMAIN rec \ {i} |-> rec[j]]
             /\ UNCHANGED <<prj, fs, env, opts, clk, ph, todo, stack, built, vals, pm, res, evs, inst>>

MaxLive == IF cur.r # 0 /\ R(cur.r).k = "cc" THEN Jobs ELSE 1

\* A command is started
Start(n) ==
  /\ cur.r # 0 /\ n \in 1..Len(cur.pend) /\ Cardinality(cur.live) < MaxLive
  /\ R(cur.r).k # "cc" => cur.failed = {}
  /\ LET t == cur.pend[n]
     IN /\ cur' = [cur EXCEPT !.pend = [m \in 1..(Len(@) - 1) |-> IF m < n THEN @[m] ELSE @[m + 1]], !.live = @ \cup {t}]
        /\ evs' = IF Logged(cur.r) THEN Append(evs, [r |-> cur.r, t |-> t, e |-> Event(cur.r, t)]) ELSE evs
  /\ UNCHANGED <<prj, fs, env, opts, rec, clk, ph, todo, stack, built, vals, pm, res, inst>>

\* A compiler cannot be started (no more processes): others go on
NoStart(n) ==
  /\ cur.r # 0 /\ n \in 1..Len(cur.pend) /\ R(cur.r).k = "cc"
  /\ cur' = [cur EXCEPT !.pend = [m \in 1..(Len(@) - 1) |-> IF m < n THEN @[m] ELSE @[m + 1]], !.failed = @ \cup {cur.pend[n]}]
  /\ UNCHANGED <<prj, fs, env, opts, rec, clk, ph, todo, stack, built, vals, pm, res, evs, inst>>

\* A command is finished
Finish(t) ==
  /\ cur.r # 0 /\ t \in cur.live
  /\ LET i == cur.r
         r == TaskResult(i, t)
     IN /\ fs' = Write(Drop(fs, Removed(i, t, r)), r.out, clk)
        /\ clk' = clk + 1
        /\ IF ~r.ok /\ R(i).k # "cc"
           THEN StopBuild("fail") /\ UNCHANGED <<rec, todo, vals, evs>>
           ELSE /\ cur' = [cur EXCEPT !.live = @ \ {t}, !.failed = IF r.ok THEN @ ELSE @ \cup {t}]
                /\ vals' = IF R(i).k = "subst"
                           THEN (("$" \o R(i).id) :> (R(i).id \o "(" \o JoinStr(PartsVals(R(i).args), ",") \o ")")) @@ vals
                           ELSE vals
                /\ UNCHANGED <<prj, env, opts, rec, ph, todo, stack, built, pm, res, evs, inst>>

\* All commands are finished: the new record replaces the old one
Commit ==
  /\ cur.r # 0 /\ cur.pend = <<>> /\ cur.live = {}
  /\ LET i == cur.r
         keep == ~(R(i).k = "subst" /\ ~R(i).cached)
         nr == NewRec(i, cur.failed, cur.t)
     IN /\ rec' = IF keep THEN (i :> nr) @@ rec ELSE rec
        /\ vals' = IF R(i).k = "check" THEN nr.set @@ vals ELSE vals
        /\ IF cur.failed # {}
           THEN StopBuild("fail") /\ UNCHANGED <<fs, clk, todo, evs>>
           ELSE /\ built' = IF R(i).k = "subst" THEN built ELSE built \cup {i}
                /\ stack' = Pop
                /\ cur' = NoRun
                /\ UNCHANGED <<prj, fs, env, opts, clk, ph, todo, pm, res, evs, inst>>

\* The build process is killed, or gives up. Commands which are running may complete.
Crash(S, r) ==
  /\ ph # "idle" /\ S \subseteq cur.live
  /\ LET out == [p \in UNION {DOMAIN TaskResult(cur.r, t).out : t \in S} |->
                    LET t == CHOOSE t \in S : p \in DOMAIN TaskResult(cur.r, t).out
                    IN TaskResult(cur.r, t).out[p]]
         del == UNION {Removed(cur.r, t, TaskResult(cur.r, t)) : t \in S}
     IN fs' = Write(Drop(fs, del), out, clk)
  /\ clk' = clk + 1
  /\ StopBuild(r) /\ UNCHANGED <<rec, todo, vals, evs>>

BuildStep ==
  \/ InitCheck \/ Setup \/ NextRule \/ PhaseEnd \/ VisitConsumed \/ VisitSubst \/ Decide \/ Commit
  \/ (IF cur.r = 0 THEN FALSE ELSE
        \/ (\E n \in (IF R(cur.r).k = "cc" THEN 1..Len(cur.pend) ELSE {1}) : Start(n))
        \/ \E t \in cur.live : Finish(t))

----------------------------------------------------------------------------
\* Environment actions between builds

SetFile(p, c) ==
  /\ ph = "idle"
  /\ fs' = (p :> [c |-> c, v |-> clk]) @@ fs /\ clk' = clk + 1 /\ res' = "none"
  /\ UNCHANGED <<prj, env, opts, rec, ph, todo, stack, built, vals, pm, cur, evs, inst>>

DelFile(p) ==
  /\ ph = "idle" /\ fs' = Drop(fs, {p}) /\ res' = "none"
  /\ UNCHANGED <<prj, env, opts, rec, clk, ph, todo, stack, built, vals, pm, cur, evs, inst>>

SetEnv(n, v) ==
  /\ ph = "idle" /\ env' = (n :> v) @@ env /\ res' = "none"
  /\ UNCHANGED <<prj, fs, opts, rec, clk, ph, todo, stack, built, vals, pm, cur, evs, inst>>

UnsetEnv(n) ==
  /\ ph = "idle" /\ env' = Drop(env, {n}) /\ res' = "none"
  /\ UNCHANGED <<prj, fs, opts, rec, clk, ph, todo, stack, built, vals, pm, cur, evs, inst>>

----------------------------------------------------------------------------
\* Properties

\* Content of a file which a build from scratch would have
RECURSIVE IdealC(_)
IdealIn(pr) == IF pr[1] \in DOMAIN pm THEN IdealC(pr[1]) ELSE Content(Where(pr))
IdealArgs(i, t) == IF R(i).k = "fe" THEN ItemArgs(R(i).args, R(i).imap[t].val) ELSE PartsVals(R(i).args)
IdealIns(i, t) == IF R(i).k = "fe" THEN ItemIns(i, t) \o R(i).ins ELSE R(i).ins
RECURSIVE IdealIncl(_, _, _)
IdealIncl(i, q, acc) ==
  IF q = <<>> THEN acc
  ELSE LET pr == R(i).hmap[Head(q)]
           p == IF pr[1] \in DOMAIN pm THEN pr[1] ELSE Where(pr)
       IN IF \E n \in 1..Len(acc) : acc[n][1] = p THEN IdealIncl(i, Tail(q), acc)
          ELSE IdealIncl(i, Tail(q), IdealIncl(i, IF p \in DOMAIN pm THEN <<>> ELSE fs[p].c.inc,
                                              Append(acc, <<p, IdealIn(pr)>>)))
IdealC(p) ==
  LET i == pm[p]
      t == IF R(i).k = "run" THEN "" ELSE CHOOSE t \in Range1(Items(i)) : R(i).imap[t].out = p
  IN CASE R(i).k \in {"run", "fe"} ->
            LET b == R(i).id \o "(" \o JoinStr(IdealArgs(i, t), ",")
                     \o FoldLeft(LAMBDA a, x : a \o ";" \o IdealIn(x), "", IdealIns(i, t)) \o ")"
                n == IF R(i).k = "fe" THEN 1 ELSE CHOOSE n \in 1..Len(R(i).outs) : R(i).outs[n] = p
            IN IF n = 1 THEN b ELSE b \o "#" \o ToString(n)
       [] R(i).k = "cc" ->
            LET pr == R(i).imap[t].in
                inc == IF pr[1] \in DOMAIN pm THEN <<>> ELSE IdealIncl(i, fs[Where(pr)].c.inc, <<>>)
            IN CcName(i) \o "(" \o JoinStr(Flags(i), ",") \o ";" \o IdealIn(pr)
               \o FoldLeft(LAMBDA a, h : a \o "|" \o h[2], "", inc) \o ")"
       [] R(i).k = "conf" -> ConfText(fs[Where(R(i).imap[t].in)].c.par)
       [] OTHER -> ""

\* At the end of a successful build each product is as if built from scratch
Fresh == (ph = "idle" /\ res = "ok") => \A p \in DOMAIN pm : Exists(p) /\ Content(p) = IdealC(p)

\* Commands are executed at most once in a build
Once == \A m, n \in 1..Len(evs) : m # n => <<evs[m].r, evs[m].t>> # <<evs[n].r, evs[n].t>>

\* A running command has up to date inputs
Ordered ==
  (cur.r # 0 /\ cur.live # {}) =>
     \A n \in 1..Len(Consumed(cur.r)) : LET p == Consumed(cur.r)[n][1] IN p \in DOMAIN pm => pm[p] \in built

\* A rule with a record has nothing to do only if its products exist as it left them
Recorded == \A i \in DOMAIN rec : \A x \in rec[i].out : x[2] > 0

=============================================================================
