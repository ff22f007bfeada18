----------------------------- MODULE HotReload ------------------------------
(* Hot reload of cached definitions (koreo.cache on top of koreo.registry). *)
(*                                                                          *)
(* A cached entry was built by a preparation which read the current state   *)
(* (the id) of each definition it depends on.  Preparing may suspend, so it *)
(* is two steps: it reads at the first and is stored at the second, and any *)
(* other action can happen in between.  A monitor task per watched entry    *)
(* consumes change events and prepares the entry again.                     *)
(*                                                                          *)
(* Bug... constants reintroduce known implementation mistakes; with any of  *)
(* them the invariants are violated (checked on every run: non-vacuity).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N,          \* definitions, as naturals: n may depend on m < n
          MaxOps,     \* offers and deletes
          MaxFly,     \* offers in flight
          BugReoffer,    \* a deleted entry's dying monitor blocks the new one
          BugOverwrite,  \* a busy monitor overwrites a newer offer
          BugSupersede,  \* a superseded offer overwrites a newer one
          BugMissed      \* changes during a preparation are not noticed

VARIABLES entry,   \* n -> [id, deps, built]
          sub,     \* n -> set of definitions n subscribes to
          reg,     \* n -> n has a queue
          mon,     \* n -> "none" | "idle" | "busy" | "dying"
          q,       \* n -> sequence of event times (LIFO)
          start,   \* n -> start time of the preparation cached
          changed, \* n -> time of n's last change
          fly,     \* offers in flight
          work,    \* n -> the monitor's preparation in flight
          latest,  \* n -> start time of the newest offer
          clock, ops
vars == <<entry, sub, reg, mon, q, start, changed, fly, work, latest, clock, ops>>

Absent == [id |-> 0, deps |-> {}, built |-> <<>>]
Present(n) == entry[n].id # 0
NoWork == [start |-> 0]

Init == /\ entry = [n \in N |-> Absent]
        /\ sub = [n \in N |-> {}] /\ reg = [n \in N |-> FALSE]
        /\ mon = [n \in N |-> "none"] /\ q = [n \in N |-> <<>>]
        /\ start = [n \in N |-> 0] /\ changed = [n \in N |-> 0]
        /\ fly = {} /\ work = [n \in N |-> NoWork]
        /\ latest = [n \in N |-> 0] /\ clock = 1 /\ ops = 0

Reads(deps) == [d \in deps |-> entry[d].id]

\* queues after n's subscribers are told that n changed at time t
Told(n, t, qs, subs, rs) ==
    [m \in N |-> IF n \in subs[m] /\ rs[m] THEN Append(qs[m], t) ELSE qs[m]]

\* Begin an offer: register (announcing a new definition) and read.
Begin(n, deps) ==
    /\ reg' = [reg EXCEPT ![n] = TRUE]
    /\ q' = IF reg[n] THEN q ELSE Told(n, clock, q, sub, reg)
    /\ latest' = [latest EXCEPT ![n] = clock]

\* Store the result of preparation p of n.
Store(n, p, qs, rs) ==
    LET subs == [sub EXCEPT ![n] = p.deps]
        q1 == Told(n, clock, qs, subs, rs)
        missed == ~BugMissed /\ \E d \in p.deps : changed[d] > p.start
    IN /\ entry' = [entry EXCEPT ![n] = [id |-> clock, deps |-> p.deps, built |-> p.reads]]
       /\ sub' = subs
       /\ start' = [start EXCEPT ![n] = p.start]
       /\ changed' = [changed EXCEPT ![n] = clock]
       /\ q' = IF missed THEN [q1 EXCEPT ![n] = Append(@, clock)] ELSE q1

Watch(n, deps) ==
    mon' = IF deps # {} /\ mon[n] = "none" THEN [mon EXCEPT ![n] = "idle"] ELSE mon

Tick == clock' = clock + 1

OfferAtomic(n, deps) ==
    /\ ops < MaxOps /\ ops' = ops + 1 /\ Tick
    /\ LET rs == [reg EXCEPT ![n] = TRUE]
           q0 == IF reg[n] THEN q ELSE Told(n, clock, q, sub, reg)
       IN /\ reg' = rs
          /\ Store(n, [deps |-> deps, reads |-> Reads(deps), start |-> clock], q0, rs)
    /\ latest' = [latest EXCEPT ![n] = clock]
    /\ Watch(n, deps)
    /\ UNCHANGED <<fly, work>>

OfferBegin(n, deps) ==
    /\ ops < MaxOps /\ ops' = ops + 1 /\ Tick
    /\ Cardinality(fly) < MaxFly
    /\ Begin(n, deps)
    /\ fly' = fly \cup {[n |-> n, start |-> clock, deps |-> deps, reads |-> Reads(deps)]}
    /\ UNCHANGED <<entry, sub, mon, start, changed, work>>

OfferEnd(f) ==
    /\ fly' = fly \ {f} /\ Tick
    /\ IF latest[f.n] = f.start \/ BugSupersede
       THEN \* (registers again: it may have been deleted while preparing)
            LET rs == [reg EXCEPT ![f.n] = TRUE] IN
            /\ Store(f.n, f, q, rs) /\ Watch(f.n, f.deps) /\ reg' = rs
       ELSE UNCHANGED <<entry, sub, start, changed, q, mon, reg>>
    /\ UNCHANGED <<work, latest, ops>>

Delete(n) ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ Present(n) /\ Tick
    /\ entry' = [entry EXCEPT ![n] = Absent]
    /\ sub' = [sub EXCEPT ![n] = {}]
    /\ reg' = [reg EXCEPT ![n] = FALSE]
    /\ q' = Told(n, clock, [q EXCEPT ![n] = <<>>], [sub EXCEPT ![n] = {}], reg)
    /\ changed' = [changed EXCEPT ![n] = clock]
    /\ mon' = [mon EXCEPT ![n] = IF @ # "none" /\ BugReoffer THEN "dying" ELSE "none"]
    /\ work' = [work EXCEPT ![n] = NoWork]
    /\ UNCHANGED <<start, fly, latest>>

\* BugReoffer: the cancelled task's callback deregisters whatever is there now
Reap(n) ==
    /\ mon[n] = "dying"
    /\ mon' = [mon EXCEPT ![n] = "none"]
    /\ sub' = [sub EXCEPT ![n] = {}]
    /\ reg' = [reg EXCEPT ![n] = FALSE]
    /\ q' = [q EXCEPT ![n] = <<>>]
    /\ UNCHANGED <<entry, start, changed, fly, work, latest, clock, ops>>

MonTake(n) ==
    /\ mon[n] = "idle" /\ q[n] # <<>>
    /\ LET t == q[n][Len(q[n])] IN
       /\ q' = [q EXCEPT ![n] = SubSeq(@, 1, Len(@) - 1)]
       /\ IF t <= start[n] THEN UNCHANGED <<mon, work, clock>>
          ELSE /\ Tick
               /\ mon' = [mon EXCEPT ![n] = "busy"]
               /\ work' = [work EXCEPT ![n] =
                    [start |-> clock, base |-> entry[n].id, deps |-> entry[n].deps,
                     reads |-> Reads(entry[n].deps)]]
    /\ UNCHANGED <<entry, sub, reg, start, changed, fly, latest, ops>>

MonEnd(n) ==
    /\ mon[n] = "busy" /\ Tick
    /\ IF entry[n].id = work[n].base \/ BugOverwrite
       THEN /\ Store(n, work[n], q, reg)
            /\ mon' = [mon EXCEPT ![n] = "idle"]
            /\ work' = [work EXCEPT ![n] = NoWork]
       ELSE \* the entry was replaced meanwhile: prepare the new one again
            /\ work' = [work EXCEPT ![n] =
                    [start |-> clock, base |-> entry[n].id, deps |-> entry[n].deps,
                     reads |-> Reads(entry[n].deps)]]
            /\ UNCHANGED <<entry, sub, start, changed, q, mon>>
    /\ UNCHANGED <<reg, fly, latest, ops>>

External == \E n \in N : \/ \E deps \in SUBSET {m \in N : m < n} :
                               OfferAtomic(n, deps) \/ OfferBegin(n, deps)
                         \/ Delete(n)
Internal == (\E f \in fly : OfferEnd(f)) \/ (\E n \in N : MonTake(n) \/ MonEnd(n) \/ Reap(n))
Next == External \/ Internal
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal)

Idle == /\ fly = {}
        /\ \A n \in N : mon[n] = "none" \/ (mon[n] = "idle" /\ q[n] = <<>>)

Coherent == Idle => \A n \in N : \A d \in entry[n].deps :
                        entry[n].built[d] = entry[d].id
NewestCached == Idle => \A n \in N : Present(n) => start[n] >= latest[n]
NoLeftovers == Idle => \A n \in N : ~Present(n) => sub[n] = {} /\ mon[n] = "none"
Watched == Idle => \A n \in N : Present(n) =>
                        sub[n] = entry[n].deps /\ (sub[n] # {} => mon[n] = "idle" /\ reg[n])
Settles == <>[]Idle
=============================================================================
