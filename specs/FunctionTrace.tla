--------------------------- MODULE FunctionTrace ----------------------------
(* case: [fn, obs] with obs: [c, m, d, names: seq of places the outcome       *)
(*  mentions, calls: seq of verbs, raised: BOOLEAN, leak: BOOLEAN (an error    *)
(*  object or its text inside the value or a payload)]                        *)
(* Clauses are attributed to C10 or C13; env PROP selects.                    *)
EXTENDS Judging, FunctionSem
VARIABLE i
Set(s) == {s[k] : k \in 1..Len(s)}
Dup(f) == [f EXCEPT !.bad = Set(f.bad)]

Stopped(f) == \A o \in Decide(f.pre, "preconditions") : o # Go
PreOpen(f) == Go \in Decide(f.pre, "preconditions")
Failing(f) == \A e \in Expected(f) : e.at # {}

Outcome(e, o) == e.c = o.c /\ (e.at # {} => e.at \cap Set(o.names) # {})
                 /\ (e.at = {} /\ e.c \in {"Skip", "DepSkip", "Retry", "PermFail"} /\ e.m # "" => e.m = o.m)
                 /\ (e.c = "Retry" /\ e.d # -1 => e.d = o.d)
Calls(e, o) == Set(o.calls) \subseteq e.may /\ e.must \subseteq Set(o.calls)

Verdict(c) ==
    LET f == Dup(c.fn)  o == c.obs  es == Expected(f) IN
    IF o.raised THEN {<<"C10", "exception-escaped">>, <<"C13", "exception-escaped">>}
    ELSE If(o.leak, <<"C10", "error-in-value">>)
         \cup (IF \E e \in es : Outcome(e, o) THEN {}
               ELSE IF Failing(f)
                    THEN IF o.c # "PermFail" THEN {<<"C10", "failure-not-reported">>}
                              \cup If(~AllBool(f.pre) \/ f.bad = {}, <<"C13", "unevaluable-assertion-not-a-failure">>)
                         ELSE {<<"C10", "failure-not-located">>}
                    ELSE {<<"C13", "wrong-decision">>}
                         \cup If(o.c = "PermFail" /\ \A e \in es : e.c # "PermFail",
                                 <<"C10", "unexplained-failure">>))
         \cup (IF ~\E e \in es : Calls(e, o)
               THEN If(Stopped(f), <<"C13", "cluster-touched">>)
                    \cup If(Failing(f) /\ Set(o.calls) \cap {"create", "patch", "delete"} # {},
                            <<"C10", "mutation-despite-failure">>)
                    \cup If(~Stopped(f) /\ ~Failing(f), <<"C13", "calls-differ">>)
               ELSE {})

JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', {v[2] : v \in {w \in Verdict(Cases[i']) : w[1] = IOEnv.PROP}})
         /\ Finish(i')
=============================================================================
