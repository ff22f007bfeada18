---------------------------- MODULE WorkflowSem -----------------------------
(* What a Workflow reconcile pass means: which Logic runs, with what inputs, *)
(* and what outcome, state and API calls result.                            *)
(*                                                                          *)
(* A workflow is a sequence of steps                                        *)
(*  [label, inputs: seq of <<key, term>>, skipIf: term or <<"no">>,          *)
(*   each: <<"no">> or <<"yes", term, key>>, logic, state: seq <<key, term>>] *)
(* Terms stand for Koreo expressions:                                       *)
(*  <<"lit",V>> <<"parent",path>> <<"step",label,path>> <<"inputs",path>>    *)
(*  <<"value",path>> <<"err">> <<"list",seq>> <<"map",key,term>>             *)
(*  <<"if",t,t,t>>                                                          *)
(* Logic: [k, name, mode: path, obj: path, delay] for k in                   *)
(*   vf   ValueFunction: mode (an input) selects its outcome                 *)
(*   rf   readonly ResourceFunction of the object named by input obj         *)
(*   make / rec  ResourceFunction creating it, updating by patch / recreate  *)
(*   del  ResourceFunction with deleteIfExists                               *)
(* [k: "wf", steps], [k: "switch", on: term, cases: seq [case, dflt, logic]] *)
EXTENDS KValue, OutcomeSem

Bad == <<"err">>
Anything == <<"any">>
No == <<"no">>

RECURSIVE PGet(_, _)
PGet(v, path) ==
    IF path = <<>> \/ v[1] = "err" \/ v[1] = "any" THEN v
    ELSE IF v[1] = "m" /\ Head(path) \in DOMAIN v[2] THEN PGet(v[2][Head(path)], Tail(path))
    ELSE Bad

(* env: [parent, inputs, value: value or Bad; steps: label -> value]        *)
RECURSIVE Term(_, _)
Term(t, env) ==
    CASE t[1] = "lit" -> t[2]
      [] t[1] = "parent" -> PGet(env.parent, t[2])
      [] t[1] = "inputs" -> PGet(env.inputs, t[2])
      [] t[1] = "value" -> PGet(env.value, t[2])
      [] t[1] = "step" -> IF t[2] \in DOMAIN env.steps THEN PGet(env.steps[t[2]], t[3]) ELSE Bad
      [] t[1] = "list" ->
            LET vs == [j \in 1..Len(t[2]) |-> Term(t[2][j], env)]
            IN IF \E j \in 1..Len(vs) : vs[j][1] = "err" THEN Bad ELSE <<"l", vs>>
      [] t[1] = "map" ->
            LET x == Term(t[3], env)
            IN IF x[1] = "err" THEN Bad ELSE <<"m", [k \in {t[2]} |-> x]>>
      [] t[1] = "if" ->
            LET b == Term(t[2], env)
            IN IF b[1] # "b" THEN Bad
               ELSE IF b[2] THEN Term(t[3], env) ELSE Term(t[4], env)
      [] OTHER -> Bad

(* The steps a term names.                                                  *)
RECURSIVE Names_(_)
Names_(t) ==
    CASE t[1] = "step" -> {t[2]}
      [] t[1] = "list" -> UNION {Names_(t[2][j]) : j \in 1..Len(t[2])}
      [] t[1] = "map" -> Names_(t[3])
      [] t[1] = "if" -> Names_(t[2]) \cup Names_(t[3]) \cup Names_(t[4])
      [] OTHER -> {}
EntryNames(s) == UNION {Names_(s[j][2]) : j \in 1..Len(s)}
Deps(st) ==
    EntryNames(st.inputs) \cup EntryNames(st.state) \cup Names_(st.skipIf)
    \cup (IF st.each[1] = "yes" THEN Names_(st.each[2]) ELSE {})
    \cup (IF st.logic.k = "switch" THEN Names_(st.logic.on) ELSE {})

(* A map block: Bad if any entry is.                                        *)
Block(s, env) ==
    LET vs == [j \in 1..Len(s) |-> Term(s[j][2], env)]
        keys == {s[j][1] : j \in 1..Len(s)}
    IN IF \E j \in 1..Len(s) : vs[j][1] = "err" THEN Bad
       ELSE <<"m", [k \in keys |-> vs[CHOOSE j \in 1..Len(s) : s[j][1] = k]]>>

-----------------------------------------------------------------------------
(* Outcomes here carry also: ms, message tokens; calls, the API calls made   *)
(* to get there; amb: a skip which may be reported as Skip or DepSkip.       *)
(* d = -1: a delay the documentation does not fix.                           *)
Out(c, v) == [c |-> c, m |-> "", v |-> v, d |-> 0, ms |-> {}, amb |-> FALSE, calls |-> {}]
Failed == Out("PermFail", None)
AllCalls(os) == UNION {os[j].calls : j \in 1..Len(os)}

Combined(os) ==
    LET slim == [j \in 1..Len(os) |-> [c |-> os[j].c, d |-> os[j].d]]
        c == ClassOf(slim)
        same == OfClass(os, c)
        ds == {same[j].d : j \in 1..Len(same)}
    IN [Out(c, None) EXCEPT
          !.v = IF c = "Ok" THEN <<"l", Values(os)>> ELSE None,
          !.d = IF c # "Retry" THEN 0 ELSE IF -1 \in ds THEN -1 ELSE MaxDelay(slim),
          !.ms = UNION {same[j].ms : j \in 1..Len(same)},
          !.amb = c \in {"Skip", "DepSkip"} /\ \E j \in 1..Len(os) : os[j].amb,
          !.calls = AllCalls(os)]

(* lg.ret, if there: "none", no return at all; "empty", an empty map.        *)
Ret(lg) == IF "ret" \in DOMAIN lg THEN lg.ret ELSE "echo"
Echo(lg, in, extra) ==
    IF Ret(lg) = "none" THEN Null
    ELSE IF Ret(lg) = "empty" THEN EmptyMap
    ELSE <<"m", [k \in {"fn", "in"} \cup DOMAIN extra |->
               IF k = "fn" THEN <<"s", lg.name>> ELSE IF k = "in" THEN in ELSE extra[k]]>>
Gate(lg, in) ==
    LET m == IF lg.mode = <<>> THEN <<"s", "ok">> ELSE PGet(in, lg.mode)
        o == CASE m[1] # "s" -> Failed
               [] m[2] = "skip" -> Out("Skip", None)
               [] m[2] = "depskip" -> Out("DepSkip", None)
               [] m[2] = "retry" -> [Out("Retry", None) EXCEPT !.d = lg.delay]
               [] m[2] = "perm" -> Out("PermFail", None)
               [] m[2] = "err" -> Failed
               [] OTHER -> Out("Ok", None)
    IN IF m[1] = "s" /\ m[2] \in {"skip", "depskip", "retry", "perm"}
       THEN [o EXCEPT !.ms = {"m-" \o lg.name}] ELSE o

(* world: object name (for every function) or function/name -> "good" |      *)
(* "stale"; absent when not in its domain.                                   *)
Resource(lg, in, world) ==
    LET o == PGet(in, lg.obj)
        n == o[2]
        own == lg.name \o "/" \o n
        here == IF own \in DOMAIN world THEN world[own]
                ELSE IF n \in DOMAIN world THEN world[n] ELSE "absent"
        call(v) == v \o ":" \o n
        wait(cs) == [Out("Retry", None) EXCEPT !.d = -1, !.calls = {call(x) : x \in cs}]
        ok(r) == [Out("Ok", Echo(lg, in, r)) EXCEPT !.calls = {call("get")}]
        res == [k \in {"res"} |-> <<"s", IF here = "stale" THEN "old-" \o n ELSE n>>]
    IN IF o[1] # "s" THEN Failed
       ELSE CASE lg.k = "rf" -> IF here = "absent" THEN wait({"get"}) ELSE ok(res)
              [] lg.k = "del" -> IF here = "absent" THEN ok(EmptyFn) ELSE wait({"get", "delete"})
              [] here = "absent" -> wait({"get", "create"})
              [] here = "stale" -> wait({"get", IF lg.k = "rec" THEN "delete" ELSE "patch"})
              [] OTHER -> ok(res)

RECURSIVE Logic(_, _, _, _), Pass(_, _, _), Steps(_, _, _, _)
Logic(lg, in, env, world) ==
    CASE lg.k = "wf" ->
            LET r == Pass(lg.steps, in, world)
            IN IF r.over.c = "Ok" THEN [Out("Ok", r.state) EXCEPT !.calls = r.over.calls]
               ELSE r.over
      [] lg.k = "switch" ->
            LET on == Term(lg.on, [env EXCEPT !.inputs = in])
                hit == {j \in 1..Len(lg.cases) : lg.cases[j].case = on}
                dft == {j \in 1..Len(lg.cases) : lg.cases[j].dflt}
            IN IF on[1] \notin {"s", "n"} THEN Failed
               ELSE IF hit # {} THEN Logic(lg.cases[CHOOSE j \in hit : TRUE].logic, in, env, world)
               ELSE IF dft # {} THEN Logic(lg.cases[CHOOSE j \in dft : TRUE].logic, in, env, world)
               ELSE Failed
      [] OTHER ->
            LET g == Gate(lg, in)
            IN IF g.c # "Ok" THEN g
               ELSE IF lg.k = "vf" THEN Out("Ok", Echo(lg, in, EmptyFn))
               ELSE Resource(lg, in, world)

Each(st, src, in, env, world) ==
    LET os == [j \in 1..Len(src) |-> Logic(st.logic, With(in, st.each[3], src[j]), env, world)]
        errs == SelectSeq(os, LAMBDA o : o.c \in {"Retry", "PermFail"})
    IN IF errs # <<>> THEN [Combined(errs) EXCEPT !.calls = AllCalls(os)]
       ELSE [Out("Ok", <<"l", [j \in 1..Len(os) |-> IF os[j].c = "Ok" THEN os[j].v ELSE Anything]>>)
               EXCEPT !.calls = AllCalls(os)]

Step(st, outs, trigger, world) ==
    IF \E l \in Deps(st) : outs[l].c # "Ok" THEN Out("DepSkip", None)
    ELSE LET env == [parent |-> trigger, inputs |-> Bad, value |-> Bad,
                     steps |-> [l \in Deps(st) |-> outs[l].v]]
             in == Block(st.inputs, env)
             skip == IF st.skipIf = No THEN <<"b", FALSE>> ELSE Term(st.skipIf, env)
             src == IF st.each[1] = "yes" THEN Term(st.each[2], env) ELSE <<"l", <<>>>>
         IN CASE in[1] = "err" -> Failed
              [] skip[1] # "b" -> Failed
              [] skip[2] -> [Out("Skip", None) EXCEPT !.amb = TRUE]
              [] st.each[1] # "yes" -> Logic(st.logic, in, env, world)
              [] src[1] # "l" -> Failed
              [] OTHER -> Each(st, src[2], in, env, world)

(* Steps refer only to earlier ones, so listed order evaluates them all.     *)
Steps(steps, trigger, world, outs) ==
    LET n == Cardinality(DOMAIN outs) + 1
    IN IF n > Len(steps) THEN outs
       ELSE LET o == Step(steps[n], outs, trigger, world)
            IN Steps(steps, trigger, world, outs @@ (steps[n].label :> o))

NoEnv == [parent |-> Bad, inputs |-> Bad, steps |-> EmptyFn]
StateOf(st, o) ==
    IF o.c # "Ok" \/ st.state = <<>> THEN EmptyMap
    ELSE Block(st.state, [parent |-> Bad, inputs |-> Bad, steps |-> EmptyFn, value |-> o.v])
RECURSIVE Merge(_, _, _)
Merge(steps, outs, acc) ==
    IF steps = <<>> THEN acc
    ELSE LET s == StateOf(Head(steps), outs[Head(steps).label])
         IN Merge(Tail(steps), outs,
                  IF s[1] # "m" THEN acc
                  ELSE <<"m", [k \in DOMAIN acc[2] \cup DOMAIN s[2] |->
                                  IF k \in DOMAIN s[2] THEN s[2][k] ELSE acc[2][k]]>>)

Pass(steps, trigger, world) ==
    LET outs == Steps(steps, trigger, world, EmptyFn)
        os == [j \in 1..Len(steps) |-> outs[steps[j].label]]
    IN [outs |-> outs, over |-> Combined(os), state |-> Merge(steps, outs, EmptyMap),
        bad |-> {steps[j].label : j \in {i \in 1..Len(steps) :
                   StateOf(steps[i], os[i])[1] # "m"}}]

(* Everything downstream of a set of labels.                                *)
RECURSIVE Downstream(_, _)
Downstream(steps, ls) ==
    LET more == ls \cup {steps[j].label : j \in {i \in 1..Len(steps) : Deps(steps[i]) \cap ls # {}}}
    IN IF more = ls THEN ls ELSE Downstream(steps, more)

-----------------------------------------------------------------------------
(* Comparison with observed values; Anything matches everything.                 *)
RECURSIVE Same(_, _), Alike(_, _)
Same(e, a) ==
    CASE e[1] = "any" -> TRUE
      [] e[1] # a[1] -> FALSE
      [] e[1] = "l" -> Len(e[2]) = Len(a[2]) /\ \A j \in 1..Len(e[2]) : Same(e[2][j], a[2][j])
      [] e[1] = "m" -> DOMAIN e[2] = DOMAIN a[2] /\ \A k \in DOMAIN e[2] : Same(e[2][k], a[2][k])
      [] OTHER -> e = a
(* ... with lists in any order                                              *)
Alike(e, a) ==
    CASE e[1] = "any" -> TRUE
      [] e[1] # a[1] -> FALSE
      [] e[1] = "l" -> /\ Len(e[2]) = Len(a[2])
                       /\ \A j \in 1..Len(e[2]) : \E i \in 1..Len(a[2]) : Alike(e[2][j], a[2][i])
                       /\ \A i \in 1..Len(a[2]) : \E j \in 1..Len(e[2]) : Alike(e[2][j], a[2][i])
      [] e[1] = "m" -> DOMAIN e[2] = DOMAIN a[2] /\ \A k \in DOMAIN e[2] : Alike(e[2][k], a[2][k])
      [] OTHER -> e = a
=============================================================================
