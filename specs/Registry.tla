------------------------------ MODULE Registry ------------------------------
(* The subscription registry (koreo.registry).                              *)
(*                                                                          *)
(* State: the two views of the subscription graph, and per resource the     *)
(* life cycle of its queue: "none" (never registered / deregistered),       *)
(* "live", "killed" (Kill delivered, shut down, but still registered).      *)
(* Each public call is one action; because the registry is synchronous,     *)
(* calls are atomic.  `Step` is the single source of truth: the design      *)
(* model below and the trace validation (RegistryTrace) both use it.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Range(f) == {f[x] : x \in DOMAIN f}

(* ---- state: [watching: R -> SUBSET R, watchers: R -> SUBSET R,           *)
(*              queue: R -> {"none","live","killed"}]                       *)
Empty(R) == [watching |-> [r \in R |-> {}],
             watchers |-> [r \in R |-> {}],
             queue    |-> [r \in R |-> "none"]]

(* Everything reachable from S along "is watching" (reflexive closure). *)
RECURSIVE Reach(_, _)
Reach(st, S) ==
    LET n == S \cup UNION {st.watching[r] : r \in S}
    IN IF n = S THEN S ELSE Reach(st, n)

Cyclic(st) ==
    \E r \in DOMAIN st.watching : r \in Reach(st, st.watching[r])

Inverse(st) ==
    \A a, b \in DOMAIN st.watching :
        (b \in st.watching[a]) <=> (a \in st.watchers[b])

(* A notification reaches each current subscriber with a live queue once. *)
Targets(st, r) == {s \in st.watchers[r] : st.queue[s] = "live"}

NoDeliver == {}
Res(st, raised, deliver, from) ==
    [st |-> st, raised |-> raised, deliver |-> deliver, from |-> from]

SetWatching(st, s, new) ==
    LET old == st.watching[s] IN
    [st EXCEPT !.watching[s] = new,
               !.watchers = [r \in DOMAIN st.watchers |->
                   IF r \in new THEN st.watchers[r] \cup {s}
                   ELSE IF r \in old THEN st.watchers[r] \ {s}
                   ELSE st.watchers[r]]]

Step(st, o) ==
    CASE o.op = "register" ->
            IF st.queue[o.r] # "none"
            THEN Res(st, FALSE, {}, o.r)
            ELSE LET n == [st EXCEPT !.queue[o.r] = "live"]
                 IN Res(n, FALSE, Targets(n, o.r), o.r)
      [] o.op = "subscribe" ->
            IF o.s \in Reach(st, {o.r})
            THEN Res(st, TRUE, {}, o.r)
            ELSE Res(SetWatching(st, o.s, st.watching[o.s] \cup {o.r}),
                     FALSE, {}, o.r)
      [] o.op = "only" ->
            IF o.s \in Reach(st, Range(o.rs))
            THEN Res(st, TRUE, {}, o.s)
            ELSE Res(SetWatching(st, o.s, Range(o.rs)), FALSE, {}, o.s)
      [] o.op = "unsubscribe" ->
            \* unsubscribing from something not subscribed to leaves the
            \* registry unchanged; whether it also raises is unspecified
            Res(SetWatching(st, o.s, st.watching[o.s] \ {o.r}), FALSE, {}, o.r)
      [] o.op = "notify" -> Res(st, FALSE, Targets(st, o.r), o.r)
      [] o.op = "kill" ->
            Res(IF st.queue[o.r] = "live"
                THEN [st EXCEPT !.queue[o.r] = "killed"] ELSE st,
                FALSE, {}, o.r)
      [] o.op = "deregister" ->
            LET n == [SetWatching(st, o.r, {}) EXCEPT !.queue[o.r] = "none"]
            IN Res(n, FALSE, Targets(n, o.r), o.r)
      [] o.op \in {"getwait", "joinwait", "putwait", "drain", "take"} -> Res(st, FALSE, {}, o.r)

(* ------------------------------ design model ---------------------------- *)
CONSTANT R
VARIABLES reg,   \* registry state
          last,  \* last call and its result
          hist   \* calls so far (hidden by the VIEW)

SmallSeqs == {<<>>} \cup {<<a>> : a \in R} \cup {<<a, b>> : a \in R, b \in R}
SetSeqs == {q \in SmallSeqs : Len(q) < 2 \/ q[1] # q[2]}
\* one representative order per set, plus one list with a duplicate
Ops == {[op |-> "register", r |-> r] : r \in R}
  \cup {[op |-> "subscribe", s |-> s, r |-> r] : s \in R, r \in R}
  \cup {[op |-> "only", s |-> s, rs |-> q] : s \in R, q \in SetSeqs}
  \cup {[op |-> "unsubscribe", s |-> s, r |-> r] : s \in R, r \in R}
  \cup {[op |-> o, r |-> r] : o \in {"notify", "kill", "deregister"}, r \in R}

Init == reg = Empty(R) /\ last = Res(Empty(R), FALSE, {}, "") /\ hist = <<>>

Do(o) == LET res == Step(reg, o) IN
    /\ reg' = res.st
    /\ last' = res
    /\ hist' = Append(hist, o)

Next == \E o \in Ops : Do(o)
View == reg

TypeOK == /\ \A r \in R : reg.queue[r] \in {"none", "live", "killed"}
          /\ \A r \in R : reg.watching[r] \subseteq R /\ reg.watchers[r] \subseteq R
ViewsInverse == Inverse(reg)
Acyclic == ~Cyclic(reg)
NothingToTheDead == \A s \in last.deliver : last.st.queue[s] = "live"

\* Print one behaviour per transition of the state graph.
Emit == PrintT("T " \o ToJson(hist'))
=============================================================================
