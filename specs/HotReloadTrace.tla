-------------------------- MODULE HotReloadTrace ----------------------------
(* Validates recorded histories of the real cache against HotReload's       *)
(* invariants.  Events, in the order in which they happened:                *)
(*   offer [n, ver, o]   an offer was begun (o: number of the offer)        *)
(*   done  [n, ver, o]   that call returned                                 *)
(*   delete [n], deleted [n]                                                *)
(*   prep  [n, id, reads, deps, ver]  a preparation ended; reads[d] is the  *)
(*          id of the cached object it saw for d (0: none), deps what it    *)
(*          declared, ver the offered spec it was given                     *)
(*   raised [n]          a call raised                                      *)
(*   idle  [cached: n -> [id, ver], watching, watchers]                     *)
(*   end   [tasks]       after deleting everything: tasks left running      *)
EXTENDS Judging

Names(c) == {c.names[k] : k \in 1..Len(c.names)}
Set(s) == {s[k] : k \in 1..Len(s)}

(* s: [last: n -> [kind, ver, o], flying: set of offers, racy: n -> BOOLEAN,*)
(*     preps: id -> prep event]                                             *)
Start(c) == [last   |-> [n \in Names(c) |-> [kind |-> "delete", ver |-> 0, o |-> 0]],
             flying |-> {},
             racy   |-> [n \in Names(c) |-> FALSE],
             preps  |-> <<>>]

Move(s, e) ==
    CASE e.ev = "offer" -> [s EXCEPT !.last[e.n] = [kind |-> "offer", ver |-> e.ver, o |-> e.o],
                                     !.flying = @ \cup {[n |-> e.n, o |-> e.o]}]
      [] e.ev = "done" -> [s EXCEPT !.flying = @ \ {[n |-> e.n, o |-> e.o]}]
      [] e.ev = "delete" ->
            \* a delete racing with an unfinished offer of the same name may
            \* take effect on either side of it
            [s EXCEPT !.last[e.n] = [kind |-> "delete", ver |-> @.ver, o |-> @.o],
                      !.racy[e.n] = \E f \in s.flying : f.n = e.n]
      [] e.ev = "prep" -> [s EXCEPT !.preps = Append(@, e)]
      [] OTHER -> s

Prep(s, id) == s.preps[CHOOSE k \in 1..Len(s.preps) : s.preps[k].id = id]
KnownPrep(s, id) == \E k \in 1..Len(s.preps) : s.preps[k].id = id

IdleVerdict(c, s, e) ==
    LET present(n) == e.cached[n].id # 0
        deps(n) == Set(Prep(s, e.cached[n].id).deps)
    IN UNION {
         If(~present(n) /\ s.last[n].kind = "offer", "offered-but-absent")
    \cup If(present(n) /\ s.last[n].kind = "delete" /\ ~s.racy[n], "deleted-but-present")
    \cup If(present(n) /\ s.last[n].kind = "offer" /\ e.cached[n].ver # s.last[n].ver,
            "not-newest-version")
    \cup If(~present(n) /\ Len(e.watching[n]) # 0, "deleted-but-watching")
    \cup IF ~present(n) THEN {}
         ELSE IF ~KnownPrep(s, e.cached[n].id) THEN {"unknown-entry"}
         ELSE LET p == Prep(s, e.cached[n].id) IN
                 If(\E d \in deps(n) : p.reads[d] # e.cached[d].id, "stale-dependency")
            \cup If(p.ver # e.cached[n].ver, "built-from-other-spec")
            \cup If(Set(e.watching[n]) # deps(n), "watches-wrong-set")
       : n \in Names(c)}
    \cup If(\E a, b \in Names(c) :
               (b \in Set(e.watching[a])) # (a \in Set(e.watchers[b])), "views-not-inverse")

RECURSIVE Walk(_, _, _)
Walk(c, s, k) ==
    IF k > Len(c.events) THEN {}
    ELSE LET e == c.events[k]
             v == CASE e.ev = "idle" -> IdleVerdict(c, s, e)
                    [] e.ev = "raised" -> {"call-raised"}
                    [] e.ev = "end" -> If(e.tasks # 0, "watcher-task-left-behind")
                    [] OTHER -> {}
         IN IF v # {} THEN v ELSE Walk(c, Move(s, e), k + 1)

Verdict(c) == Walk(c, Start(c), 1)

VARIABLE i
JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
=============================================================================
