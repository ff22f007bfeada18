---------------------------- MODULE CacheTrace ------------------------------
(* Validates recorded calls of koreo.cache against Cache!Succ.             *)
(* event: the call's arguments plus                                         *)
(*   raised   the call raised                                               *)
(*   preps    preparations started by this call                             *)
(*   ret      identity of the preparation whose result was returned         *)
(*            (0: None)                                                     *)
(*   look     k -> [prep, ver, ok]: what lookups return after the call      *)
EXTENDS Judging, Cache
VARIABLE i

Keys(c) == {c.keys[n] : n \in 1..Len(c.keys)}

EntryVerdict(c, st0, st1, e, k) ==
    LET want == st1.entry[k]  see == e.look[k] IN
         If(Present(want) /\ see.prep = 0,
            IF Present(st0.entry[k]) /\ e.op \in {"delete", "deletemeta"}
            THEN "entry-lost-on-delete" ELSE "entry-missing")
    \cup If(~Present(want) /\ see.prep # 0,
            IF Present(st0.entry[k]) THEN "entry-not-removed" ELSE "entry-appeared")
    \cup If(Present(want) /\ see.prep # 0 /\ see.prep # want.prep, "not-latest-result")
    \cup If(Present(want) /\ see.prep = want.prep /\ see.ver # want.ver, "wrong-version")
    \cup If(Present(want) /\ see.prep = want.prep /\ see.ok # want.ok, "wrong-outcome")

EventVerdict(c, st0, st1, e) ==
         If(e.raised, "call-raised")
    \cup If(e.op \in {"offer", "begin"} /\ Hit(st0, e) /\ e.preps # 0, "prepared-again")
    \cup If(e.op \in {"offer", "begin"} /\ ~Hit(st0, e) /\ e.preps # 1, "not-prepared-once")
    \cup If(e.op \notin {"offer", "begin"} /\ e.preps # 0, "prepared-unasked")
    \cup If(e.op \in {"offer", "begin"} /\ Hit(st0, e) /\ e.ret # st0.entry[e.k].prep,
            "hit-returned-other-result")
    \cup If(e.op = "offer" /\ ~Hit(st0, e) /\ e.ret # st1.preps, "wrong-result-returned")
    \cup UNION {EntryVerdict(c, st0, st1, e, k) : k \in Keys(c)}

RECURSIVE Walk(_, _, _)
Walk(c, s, n) ==
    IF n > Len(c.events) THEN {}
    ELSE LET e == c.events[n]
             all == Succ(s, e)
             match == {t \in all : \A k \in Keys(c) : t.entry[k].prep = e.look[k].prep}
             s1 == IF match # {} THEN CHOOSE t \in match : TRUE
                   ELSE CHOOSE t \in all : TRUE
             v == EventVerdict(c, s, s1, e)
         IN IF v # {} THEN v ELSE Walk(c, s1, n + 1)

Verdict(c) == Walk(c, EmptyCache(Keys(c)), 1)

JInit == i = 0 /\ st = 0 /\ hist = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
         /\ UNCHANGED <<st, hist>>
=============================================================================
