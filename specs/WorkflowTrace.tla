--------------------------- MODULE WorkflowTrace ----------------------------
(* case: [steps, trigger, world: object name -> "good"|"stale", runs, mode]  *)
(* run: [raised, over: [c, d, ms: seq, v], conds: seq of [t, r], state,      *)
(*       bad: seq of labels, calls: seq, full: record of strings]            *)
(* Steps carry `cond`, the type of their condition, and `echo`, the state    *)
(* key under which their whole value is published ("" for none).            *)
(* mode "workflow" judges C01-C03; mode "faults" judges C09, with            *)
(*   passes: seq of [raised, ms, over, conds, calls, hit: seq of labels,      *)
(*                   world, ...] and ref / last: [over, state, contents]      *)
EXTENDS Judging, WorkflowSem
VARIABLE i
Set(s) == {s[k] : k \in 1..Len(s)}
Reason(c) == CASE c = "Ok" -> "Ready" [] c = "Retry" -> "Wait" [] c = "PermFail" -> "Failure"
               [] OTHER -> c
ReasonsFor(o) == IF o.amb /\ o.c \in {"Skip", "DepSkip"} THEN {"Skip", "DepSkip"} ELSE {Reason(o.c)}
Reasons(r, type) == {r.conds[k].r : k \in {j \in 1..Len(r.conds) : r.conds[j].t = type}}
Published(r, st) == IF st.echo = "" THEN None ELSE Get(r.state, st.echo)
\* candidates for a state key published by several steps
Candidates(c, p, k) ==
    {Get(StateOf(c.steps[j], p.outs[c.steps[j].label]), k) : j \in 1..Len(c.steps)} \ {None}

RunVerdict(c, p, r) ==
    IF r.raised THEN {<<"C01", "raised">>, <<"C02", "raised">>}
    ELSE UNION {
        LET st == c.steps[j]  o == p.outs[st.label]  seen == Published(r, st)
        IN If(st.cond # "" /\ Reasons(r, st.cond) # {} /\ ~(Reasons(r, st.cond) \subseteq ReasonsFor(o)),
              <<"C01", "outcome-of-step">>)
           \cup If(st.cond # "" /\ Reasons(r, st.cond) = {}, <<"C01", "outcome-not-reported">>)
           \cup (IF st.echo = "" \/ o.c # "Ok" THEN If(seen # None, <<"C01", "value-without-ok">>)
                 ELSE If(~Alike(o.v, seen), <<"C01", "value-of-step">>)
                      \cup If(st.each[1] = "yes" /\ seen[1] = "l" /\ ~Same(o.v, seen),
                              <<"C02", "forEach-results">>))
        : j \in 1..Len(c.steps)}
    \cup If(~(Set(r.calls) \subseteq p.over.calls), <<"C01", "logic-ran-wrongly">>)
    \cup If(~(p.over.calls \subseteq Set(r.calls)), <<"C01", "logic-not-run">>)
    \cup If(\E k \in DOMAIN p.state[2] :
              /\ ~Same(p.state[2][k], Get(r.state, k))
              /\ \E v \in Candidates(c, p, k) : v # p.state[2][k] /\ Same(v, Get(r.state, k)),
            <<"C02", "state-merge-order">>)
    \* C03: the overall outcome, given that the steps went as expected
    \cup (IF \E j \in 1..Len(c.steps) :
               /\ c.steps[j].cond # ""
               /\ ~(Reasons(r, c.steps[j].cond) \subseteq ReasonsFor(p.outs[c.steps[j].label]))
          THEN {}
          ELSE LET amb == p.over.amb /\ p.over.c \in {"Skip", "DepSkip"} IN
               If(r.over.c # p.over.c /\ ~(amb /\ r.over.c \in {"Skip", "DepSkip"}),
                  <<"C03", "overall-not-most-severe">>)
               \cup (IF r.over.c # p.over.c THEN {}
                     ELSE If(p.over.c \in {"Retry", "PermFail"} /\ ~(p.over.ms \subseteq Set(r.over.ms)),
                             <<"C03", "message-lost">>)
                          \cup If(p.over.c = "Retry" /\ p.over.d # -1 /\ r.over.d # p.over.d,
                                  <<"C03", "delay-not-longest">>)
                          \cup If(p.over.c = "Retry" /\ \E j \in 1..Len(c.steps) :
                                    LET o == p.outs[c.steps[j].label]
                                    IN o.c = "Retry" /\ o.d > r.over.d,
                                  <<"C03", "delay-too-short">>)))

(* C10: a step whose expressions fail is reported as such, the failure       *)
(* names a step, and nothing publishes or sends an error in place of data.   *)
Broken(c, p) == {j \in 1..Len(c.steps) : p.outs[c.steps[j].label].c = "PermFail"
                                          /\ p.outs[c.steps[j].label].ms = {}}
RECURSIVE HasSub(_)
HasSub(lg) == lg.k = "wf" \/ (lg.k = "switch" /\ \E j \in 1..Len(lg.cases) : HasSub(lg.cases[j].logic))
ErrVerdict(c, p, r) ==
    IF r.raised THEN {<<"C10", "exception-escaped">>}
    ELSE If(r.leak, <<"C10", "error-in-value">>)
         \cup UNION {
              LET st == c.steps[j]  rs == Reasons(r, st.cond)
              IN If(rs # {"Failure"}, <<"C10", "failing-step-not-reported">>)
                 \cup If(st.echo # "" /\ Get(r.state, st.echo) # None, <<"C10", "failing-step-published">>)
              : j \in Broken(c, p)}
         \cup (IF Broken(c, p) = {} THEN {}
               ELSE If(r.over.c # "PermFail", <<"C10", "failure-not-overall">>)
                    \cup If(r.over.c = "PermFail"
                            /\ \E j \in Broken(c, p) : c.steps[j].label \notin Set(r.said)
                                                        /\ ~HasSub(c.steps[j].logic),
                            <<"C10", "failing-step-not-named">>))
         \cup If(~(DOMAIN r.state[2] \subseteq DOMAIN p.state[2]) /\ p.bad # {},
                 <<"C10", "failing-state-published">>)
         \cup If(Broken(c, p) = {} /\ r.over.c = "PermFail" /\ p.over.c # "PermFail",
                 <<"C10", "unexplained-failure">>)

\* C01: nothing a step depends on is still busy when its Logic calls the API
Early(c, r) ==
    UNION {LET dep == UNION {Deps(c.steps[j]) : j \in {i_ \in 1..Len(c.steps) :
                                c.steps[i_].label = r.times[k].l}}
           IN If(r.times[k].e = "start"
                 /\ \E m \in (k + 1)..Len(r.times) : r.times[m].l \in dep,
                 <<"C01", "ran-before-dependency-finished">>)
           : k \in 1..Len(r.times)}

Fields_ == {"outcome", "conditions", "state", "ids", "contents"}
Across(c) ==
    UNION {LET f == c.runs[1].full  g == c.runs[k].full
           IN {<<"C02", x \o "-depends-on-schedule">> : x \in {y \in Fields_ : f[y] # g[y]}}
           : k \in 2..Len(c.runs)}

-----------------------------------------------------------------------------
PassVerdict(c, q) ==
    IF q.raised THEN {"exception-escaped"}
    ELSE LET hit == Set(q.hit)
             down == Downstream(c.steps, hit) \ hit
             p == Pass(c.steps, c.trigger, q.world)
         IN If(q.ms > c.limit, "exceeds-step-timeout")
            \cup If(hit # {} /\ q.over.c \notin {"Retry", "PermFail"}, "overall-not-error")
            \cup If(\E k \in 1..Len(q.owners) : q.owners[k] \in down, "dependent-ran")
            \cup UNION {
                 LET st == c.steps[j]  rs == Reasons(q, st.cond)  l == st.label
                 IN If(l \in hit /\ ~(rs \subseteq {"Wait", "Failure"}), "affected-step-reported-wrongly")
                    \cup If(l \in down /\ "Ready" \in rs, "false-ready")
                    \cup If(l \notin hit \cup down /\ "Ready" \in rs /\ p.outs[l].c # "Ok", "false-ready")
                    \cup If(l \in down /\ st.echo # "" /\ Get(q.state, st.echo) # None, "state-of-step-not-run")
                 : j \in 1..Len(c.steps)}
            \cup If(hit # {} /\ \E k \in 1..Len(q.conds) :
                      /\ q.conds[k].r = "Ready"
                      /\ q.conds[k].t \notin {c.steps[j].cond : j \in 1..Len(c.steps)},
                    "false-ready")
FaultVerdict(c) ==
    UNION {PassVerdict(c, c.passes[k]) : k \in 1..Len(c.passes)}
    \cup (IF c.last.settled
          THEN If(c.last.contents # c.ref.contents, "contents-not-recovered")
               \cup If(c.last.outcome # c.ref.outcome, "result-not-recovered")
               \cup If(c.last.state # c.ref.state, "state-not-recovered")
          ELSE {"does-not-settle"})

Verdict(c) ==
    IF c.mode = "faults" THEN FaultVerdict(c)
    ELSE LET p == Pass(c.steps, c.trigger, c.world)
             all == UNION {RunVerdict(c, p, c.runs[k]) \cup ErrVerdict(c, p, c.runs[k]) \cup Early(c, c.runs[k]) : k \in 1..Len(c.runs)}
                    \cup Across(c)
         IN {v[2] : v \in {w \in all : w[1] = IOEnv.PROP}}

JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
=============================================================================
