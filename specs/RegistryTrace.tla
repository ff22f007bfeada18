--------------------------- MODULE RegistryTrace ----------------------------
(* Validates recorded calls of koreo.registry against Registry!Step.        *)
(* A case is                                                                *)
(*   [names, events: Seq([op.., raised, watching, watchers, got,            *)
(*                        fromok, pending])]                                *)
(* where watching/watchers are the observed views after the call, got[r] is *)
(* the number of notifications newly put on r's queue by this call and      *)
(* pending[r] the number of tasks still blocked on r's queue.               *)
EXTENDS Judging, Registry

VARIABLE i

Names(c) == {c.names[k] : k \in 1..Len(c.names)}
Observed(c, e) ==
    [watching |-> [r \in Names(c) |-> Range(e.watching[r])],
     watchers |-> [r \in Names(c) |-> Range(e.watchers[r])]]

StepVerdict(c, st, res, e) ==
    LET ob == Observed(c, e) IN
         If(e.hung, "does-not-return")
    \cup If(~Inverse(ob), "views-not-inverse")
    \cup If(Cyclic(ob), "cycle")
    \cup If(res.raised /\ ~e.raised, "cycle-not-refused")
    \cup If(e.raised /\ ~res.raised /\ e.op \notin {"unsubscribe"}
            /\ e.op \in {"subscribe", "only"}, "valid-subscription-refused")
    \cup If(e.raised /\ ~res.raised /\ e.op \notin {"unsubscribe", "subscribe", "only"},
            "call-raised")
    \cup If(\E r \in Names(c) : ob.watching[r] # res.st.watching[r],
            IF res.raised THEN "refused-but-changed" ELSE "wrong-subscriptions")
    \cup If(\E r \in Names(c) : r \notin res.deliver /\ e.got[r] # 0,
            "delivered-to-wrong-resource")
    \cup If(\E r \in Names(c) : r \in res.deliver /\ e.got[r] = 0 /\ ~e.full[r],
            "not-delivered")
    \cup If(\E r \in Names(c) : r \in res.deliver /\ e.got[r] > 1,
            "delivered-more-than-once")
    \cup If(~e.fromok, "wrong-event")
    \cup If(e.op = "deregister" /\ e.pending[e.r] # 0, "waiter-not-released")

\* After a divergence the remainder is not judged (the state is unknown).
RECURSIVE Walk(_, _, _)
Walk(c, st, k) ==
    IF k > Len(c.events) THEN {}
    ELSE LET e == c.events[k]
             res == Step(st, e)
             v == StepVerdict(c, st, res, e)
         IN IF e.op = "register" /\ st.queue[e.r] = "killed" /\ e.newq
            THEN {}      \* re-registering a killed resource: unspecified
            ELSE IF v # {} THEN v ELSE Walk(c, res.st, k + 1)

RECURSIVE Fold(_, _, _)
Fold(st, ops, k) == IF k > Len(ops) THEN st ELSE Fold(Step(st, ops[k]).st, ops, k + 1)

Verdict(c) == Walk(c, Fold(Empty(Names(c)), c.pre, 1), 1)

JInit == i = 0 /\ reg = 0 /\ last = 0 /\ hist = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
         /\ UNCHANGED <<reg, last, hist>>
=============================================================================
