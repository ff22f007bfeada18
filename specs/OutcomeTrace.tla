---------------------------- MODULE OutcomeTrace ----------------------------
(* case: [seq, res: [c, ms, d, vs, raised, how]] and, for workflows,        *)
(* kind "workflow": steps' outcomes and the overall outcome.                *)
EXTENDS Judging, Outcome
VARIABLE i
Set(s) == {s[k] : k \in 1..Len(s)}

Verdict(c) ==
    LET s == c.seq  r == c.res IN
    IF r.raised THEN {"raised"}
    ELSE If(r.c # ClassOf(s), "not-most-severe")
    \cup IF r.c # ClassOf(s) THEN {}
         ELSE If(r.c \in {"Retry", "PermFail"} /\ ~(Messages(s, r.c) \subseteq Set(r.ms)),
                 "message-lost")
         \cup If(r.c = "Ok" /\ c.kind # "workflow" /\ r.vs # Values(s), "values-differ")
         \cup If(r.c = "Retry" /\ r.d # MaxDelay(s), "delay-not-longest")

JInit == i = 0 /\ seq = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
         /\ UNCHANGED seq
=============================================================================
