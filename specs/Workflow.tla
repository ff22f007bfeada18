------------------------------ MODULE Workflow ------------------------------
(* Design model of a Workflow reconcile pass: steps run concurrently, each   *)
(* after its dependencies; API calls return in any order; calls may fail,    *)
(* crash the step or never answer.  Checked against the declarative meaning  *)
(* in WorkflowSem.                                                          *)
EXTENDS WorkflowSem, Json
CONSTANTS N,        \* number of steps
          Kinds,    \* step kinds to combine
          Faults    \* fault kinds to inject ({} for none)
VARIABLES wf,       \* the workflow: seq of [kind, deps]
          st,       \* label -> "idle" | "run" | "done" | "crashed" | "cancelled"
          res,      \* label -> outcome, for done steps
          pend,     \* units in flight
          got,      \* unit -> "ok" | "error", answered units
          ran,      \* labels whose Logic ran
          order,    \* history: units in the order they were answered
          fault,    \* <<>> or <<unit, kind>>
          now       \* "working" | "timedout"
vars == <<wf, st, res, pend, got, ran, order, fault, now>>

Label(n) == "step" \o ToString(n)
Leaf(k, name) == [k |-> k, name |-> name, mode |-> <<>>, obj |-> <<"obj">>, delay |-> 5]
Lit(s) == <<"lit", <<"s", s>>>>
DepInputs(deps) == [j \in 1..Cardinality(deps) |->
    LET l == CHOOSE x \in deps : Cardinality({y \in deps : y < x}) = j - 1
    IN <<"d" \o ToString(l), <<"step", Label(l), <<>>>>>>]
ItemsOf(n) == <<"l", <<<<"s", "a" \o ToString(n)>>, <<"s", "b" \o ToString(n)>>>>>>
MkStep(n, kind, deps) ==
    LET gate(m) == [Leaf("vf", "vf-" \o m) EXCEPT !.mode = <<"mode">>]
        logic == CASE kind = "vok" -> Leaf("vf", "vf-ok")
                   [] kind = "rok" \/ kind = "rwait" -> Leaf("rf", "rf-plain")
                   [] kind = "make" -> Leaf("make", "make-plain")
                   [] kind = "skipif" -> Leaf("rf", "rf-plain")
                   [] kind = "each" -> [Leaf("rf", "rf-item") EXCEPT !.obj = <<"item">>]
                   [] kind = "switch" ->
                        [k |-> "switch", on |-> Lit("b"),
                         cases |-> <<[case |-> <<"s", "a">>, dflt |-> TRUE, logic |-> Leaf("rf", "rf-one")],
                                     [case |-> <<"s", "b">>, dflt |-> FALSE, logic |-> Leaf("rf", "rf-plain")]>>]
                   [] OTHER -> gate(kind)
        own == CASE kind \in {"rok", "rwait", "make", "skipif", "switch"} -> <<<<"obj", Lit("o" \o ToString(n))>>>>
                 [] kind \in {"vok", "each"} -> <<>>
                 [] OTHER -> <<<<"mode", Lit(kind)>>>>
    IN [label |-> Label(n), inputs |-> own \o DepInputs(deps),
        skipIf |-> IF kind = "skipif" THEN <<"lit", <<"b", TRUE>>>> ELSE No,
        each |-> IF kind = "each" THEN <<"yes", <<"lit", ItemsOf(n)>>, "item">> ELSE No,
        logic |-> logic, state |-> <<<<"echo_" \o Label(n), <<"value", <<>>>>>>, <<"last", Lit(Label(n))>>>>,
        cond |-> "C" \o Label(n), echo |-> "echo_" \o Label(n)]
Steps_(w) == [n \in 1..N |-> MkStep(n, w[n].kind, w[n].deps)]
World_(w) ==
    LET names == UNION {CASE w[n].kind \in {"rok", "switch"} -> {"o" \o ToString(n)}
                          [] w[n].kind = "each" -> {"a" \o ToString(n), "b" \o ToString(n)}
                          [] OTHER -> {} : n \in 1..N}
    IN [x \in names |-> "good"]
Meaning == Pass(Steps_(wf), EmptyMap, World_(wf))

(* API calls a step makes: get:o, then create:o for "make".                 *)
First(n) == CASE wf[n].kind \in {"rok", "rwait", "make", "switch"} -> {<<n, "o" \o ToString(n), "get">>}
              [] wf[n].kind = "each" -> {<<n, "a" \o ToString(n), "get">>, <<n, "b" \o ToString(n), "get">>}
              [] OTHER -> {}

Init == /\ wf \in [1..N -> [kind : Kinds, deps : SUBSET (1..N)]]
        /\ \A n \in 1..N : wf[n].deps \subseteq 1..(n - 1)
        /\ st = [n \in 1..N |-> "idle"]
        /\ res = [n \in 1..N |-> "none"]
        /\ pend = {} /\ got = [x \in {} |-> ""] /\ ran = {} /\ order = <<>> /\ fault = <<>>
        /\ now = "working"

Resolved(n) == st[n] \in {"done", "crashed", "cancelled"}
Ready(n) == st[n] = "idle" /\ \A d \in wf[n].deps : st[d] = "done"
Blocked(n) == \E d \in wf[n].deps : res[d] # "Ok"

Launch(n) ==
    /\ now = "working" /\ Ready(n)
    /\ IF Blocked(n)
       THEN /\ st' = [st EXCEPT ![n] = "done"] /\ res' = [res EXCEPT ![n] = "DepSkip"]
            /\ UNCHANGED <<pend, ran>>
       ELSE IF wf[n].kind = "skipif"
       THEN /\ st' = [st EXCEPT ![n] = "done"] /\ res' = [res EXCEPT ![n] = "Skip"]
            /\ UNCHANGED <<pend, ran>>
       ELSE IF First(n) = {}
       THEN /\ st' = [st EXCEPT ![n] = "done"]
            /\ res' = [res EXCEPT ![n] = CASE wf[n].kind = "vok" -> "Ok" [] wf[n].kind = "skip" -> "Skip"
                                           [] wf[n].kind = "retry" -> "Retry" [] OTHER -> "PermFail"]
            /\ ran' = ran \cup {n} /\ UNCHANGED pend
       ELSE /\ st' = [st EXCEPT ![n] = "run"] /\ pend' = pend \cup First(n)
            /\ ran' = ran \cup {n} /\ UNCHANGED res
    /\ UNCHANGED <<wf, got, order, fault, now>>

Finish_(n, g, p) ==
    IF \E u \in p : u[1] = n THEN "running"
    ELSE IF \E u \in DOMAIN g : u[1] = n /\ g[u] = "error" THEN "Retry"
    ELSE IF wf[n].kind \in {"rwait", "make"} THEN "Retry" ELSE "Ok"
Answer(u, how) ==
    LET n == u[1]
        more == how = "ok" /\ wf[n].kind = "make" /\ u[3] = "get"
        p == (pend \ {u}) \cup (IF more THEN {<<n, u[2], "create">>} ELSE {})
        g == got @@ (u :> how)
        f == Finish_(n, g, p)
    IN /\ pend' = p /\ got' = g
       /\ order' = Append(order, <<u[3], u[2]>>)
       /\ st' = [st EXCEPT ![n] = IF f = "running" THEN "run" ELSE "done"]
       /\ res' = [res EXCEPT ![n] = IF f = "running" THEN @ ELSE f]
Return == /\ now = "working"
          /\ \E u \in pend : fault # <<u, "hang">> /\ Answer(u, "ok")
          /\ UNCHANGED <<wf, ran, fault, now>>

(* Faults (at most one per pass in this model).                             *)
Error == /\ now = "working" /\ fault = <<>> /\ "error" \in Faults
         /\ \E u \in pend : Answer(u, "error") /\ fault' = <<u, "error">>
         /\ UNCHANGED <<wf, ran, now>>
Crash == /\ now = "working" /\ fault = <<>> /\ "crash" \in Faults
         /\ \E u \in pend :
               /\ fault' = <<u, "crash">>
               /\ order' = Append(order, <<u[3], u[2]>>)
               /\ st' = [n \in 1..N |-> IF n = u[1] THEN "crashed"
                                        ELSE IF st[n] = "done" THEN "done" ELSE "cancelled"]
         /\ res' = [n \in 1..N |-> IF st'[n] # "done" THEN "Retry" ELSE res[n]]
         /\ pend' = {} /\ UNCHANGED <<wf, got, ran, now>>
Hang == /\ now = "working" /\ fault = <<>> /\ "hang" \in Faults
        /\ \E u \in pend : fault' = <<u, "hang">>
        /\ UNCHANGED <<wf, st, res, pend, got, ran, order, now>>
Timeout == /\ now = "working" /\ fault # <<>> /\ fault[2] = "hang"
           /\ pend = {fault[1]} /\ \A n \in 1..N : ~Ready(n)
           /\ now' = "timedout" /\ pend' = {}
           /\ st' = [n \in 1..N |-> IF st[n] = "done" THEN "done" ELSE "cancelled"]
           /\ res' = [n \in 1..N |-> IF st[n] = "done" THEN res[n] ELSE "Retry"]
           /\ UNCHANGED <<wf, got, ran, order, fault>>

Done == \A n \in 1..N : Resolved(n)
Next == \/ \E n \in 1..N : Launch(n)
        \/ Return \/ Error \/ Crash \/ Hang \/ Timeout
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* C01 *)
OnlyOnOk == \A n \in ran : \A d \in wf[n].deps : st[d] = "done" /\ res[d] = "Ok"
(* C02: whatever the order, the pass means what WorkflowSem says            *)
Confluent == (Done /\ fault = <<>>) =>
    LET p == Meaning IN
    /\ \A n \in 1..N : res[n] = p.outs[Label(n)].c
    /\ {<<order[k][1] \o ":" \o order[k][2]>> : k \in 1..Len(order)} = {<<x>> : x \in p.over.calls}
(* C09 *)
Hit == {fault[1][1]}
Overall == ClassOf([n \in 1..N |-> [c |-> res[n]]])
Contained == (Done /\ fault # <<>>) =>
    LET steps == Steps_(wf)
        down == Downstream(steps, {Label(n) : n \in Hit}) IN
    /\ \A n \in Hit : res[n] \in {"Retry", "PermFail"}
    /\ Overall \in {"Retry", "PermFail"}
    /\ \A n \in 1..N : Label(n) \in down /\ n \notin Hit => n \notin ran /\ res[n] # "Ok"
    /\ \A n \in 1..N : res[n] = "Ok" => Meaning.outs[Label(n)].c = "Ok"
Terminates == <>Done

(* a pass never gets stuck                                                  *)
NoDeadlock == Done \/ ENABLED Next

Emit == (~Done /\ Done') =>
    PrintT("T " \o ToJson([steps |-> Steps_(wf), world |-> World_(wf), order |-> order', fault |-> fault',
                            kinds |-> [n \in 1..N |-> wf[n].kind]]))
=============================================================================
