-------------------------- MODULE StaticRefsTrace ---------------------------
(* Recorded preparations (C14).                                               *)
(* k = "deps": a Workflow.  steps: seq of [label, exprs: seq of trees,        *)
(*    broken: a field does not parse or its Logic is not ready,               *)
(*    step: a Step was prepared, deps: seq of recorded labels,                *)
(*    seen: seq of labels an evaluation looked up]; ready, ran: BOOLEAN       *)
(* k = "watch": named, watched: seq of "Kind:name"                            *)
(* k = "reload": named: seq of [r: resource]; hist: seq of                    *)
(*    [ev: <<"offer", r, version>> | <<"break", r, 0>> | <<"delete", r, 0>>,  *)
(*     skip: nothing was observed after it,                                    *)
(*     ready: BOOLEAN, at: [r -> version used]] observed after settling       *)
EXTENDS Judging, StaticRefsSem
VARIABLE i
ToSet(s) == {s[k] : k \in 1..Len(s)}

Before(c, k) == {c.steps[j].label : j \in 1..(k - 1)}
Needs(c, k) == NamedIn(c.steps[k].exprs)
Misnamed(c, k) == Needs(c, k) \ Before(c, k) # {}
Dup(c, k) == c.steps[k].label \in Before(c, k)
Wrong(c) == \E k \in 1..Len(c.steps) : Misnamed(c, k)
(* A literal as receiver may be taken for a path, which costs an order only.   *)
RECURSIVE LiteralRoot(_)
LiteralRoot(e) ==
    \/ e[1] \in {"dot", "idx", "mcall"} /\ Bare(e[2])[1] = "str"
    \/ e[1] = "macro" /\ Bare(e[2])[1] = "str"
    \/ \E j \in 1..Len(Kids(e)) : LiteralRoot(Kids(e)[j])
AllFine(c) == \A k \in 1..Len(c.steps) :
    /\ ~Misnamed(c, k) /\ ~c.steps[k].broken /\ ~Dup(c, k)
    /\ \A j \in 1..Len(c.steps[k].exprs) : ~LiteralRoot(c.steps[k].exprs[j])

Deps(c) ==
    If(Wrong(c) /\ c.ready, "misnamed-step-accepted")
    \cup If(Wrong(c) /\ c.ran, "misnamed-step-run")
    \cup If(AllFine(c) /\ ~c.ready, "prior-steps-not-recorded")
    \cup If(\E k \in 1..Len(c.steps) :
              /\ c.steps[k].step
              /\ ~(Needs(c, k) \subseteq ToSet(c.steps[k].deps)), "dependency-missing")
    \cup If(\E k \in 1..Len(c.steps) :
              /\ c.steps[k].step /\ ~Misnamed(c, k)
              /\ ~((ToSet(c.steps[k].seen) \cap Needs(c, k)) \subseteq ToSet(c.steps[k].deps)), "lookup-without-dependency")

Watch(c) == If(~(ToSet(c.named) \subseteq ToSet(c.watched)), "named-resource-not-watched")

(* The named resources after the first n events: version, 0 when absent or     *)
(* broken.                                                                     *)
RECURSIVE State(_, _, _)
State(h, n, r) ==
    IF n = 0 THEN 0
    ELSE LET e == h[n].ev IN
         IF e[2] # r THEN State(h, n - 1, r)
         ELSE IF e[1] = "offer" THEN e[3] ELSE 0
Current(c, n) ==
    LET o == c.hist[n]  ns == ToSet(c.named) IN
    IF \E r \in ns : State(c.hist, n, r) = 0 THEN ~o.ready
    ELSE o.ready /\ \A r \in ns : r \in DOMAIN o.at /\ o.at[r] = State(c.hist, n, r)
Reload(c) == If(\E n \in 1..Len(c.hist) : ~c.hist[n].skip /\ ~Current(c, n), "not-prepared-again")

Verdict(c) == CASE c.k = "deps" -> Deps(c)
                [] c.k = "watch" -> Watch(c)
                [] c.k = "reload" -> Reload(c)
JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
=============================================================================
