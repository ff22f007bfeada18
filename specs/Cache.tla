------------------------------- MODULE Cache --------------------------------
(* The definition cache (koreo.cache), without dependencies: one entry per  *)
(* (resource class, name), keyed by resourceVersion.                        *)
(*                                                                          *)
(* An offer is two steps, because preparing may suspend: Begin looks at the *)
(* cache and starts a preparation, End stores its result.  `latest[k]` is   *)
(* the offer which was begun last; a preparation which ends after a newer   *)
(* offer was begun must not replace that offer's result.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

None == [ver |-> "", prep |-> 0, ok |-> TRUE]
Present(e) == e.prep # 0

(* cache state: [entry: K -> entry, latest: K -> offer number,              *)
(*               preps: number of preparations so far,                      *)
(*               flying: set of [k, offer, prep, ver, ok]]                  *)
EmptyCache(K) == [entry  |-> [k \in K |-> None],
                  latest |-> [k \in K |-> 0],
                  preps  |-> 0,
                  offers |-> 0,
                  flying |-> {}]

Hit(st, o) == Present(st.entry[o.k]) /\ st.entry[o.k].ver = o.ver

Begin(st, o) ==
    LET n == st.offers + 1
        st1 == [st EXCEPT !.offers = n, !.latest[o.k] = n]
    IN IF Hit(st, o) THEN st1
       ELSE [st1 EXCEPT
               !.preps = st.preps + 1,
               !.flying = @ \cup {[k |-> o.k, offer |-> n, prep |-> st.preps + 1,
                                   ver |-> o.ver, ok |-> o.ok]}]

Flight(st, offer) == CHOOSE f \in st.flying : f.offer = offer
InFlight(st, offer) == \E f \in st.flying : f.offer = offer

Store(st, f) == [st EXCEPT !.entry[f.k] = [ver |-> f.ver, prep |-> f.prep, ok |-> f.ok]]

\* The possible states after a preparation ended.  A superseded preparation
\* must not replace the result of the newest offer; it may be stored while the
\* newest offer is itself still being prepared, or if it is for the very
\* version which is cached.
Ends(st, offer) ==
    IF ~InFlight(st, offer) THEN {st}
    ELSE LET f == Flight(st, offer)
             st1 == [st EXCEPT !.flying = @ \ {f}]
             store == Store(st1, f)
         IN IF st.latest[f.k] = offer THEN {store}
            ELSE {st1} \cup
                 (IF InFlight(st, st.latest[f.k])
                     \/ (Present(st.entry[f.k]) /\ st.entry[f.k].ver = f.ver)
                  THEN {store} ELSE {})

Delete(st, o) ==
    IF Present(st.entry[o.k]) /\ (o.ver = "" \/ o.ver = st.entry[o.k].ver)
    THEN [st EXCEPT !.entry[o.k] = None]
    ELSE st

Succ(st, o) ==
    CASE o.op = "offer"  -> LET b == Begin(st, o) IN Ends(b, b.offers)
      [] o.op = "begin"  -> {Begin(st, o)}
      [] o.op = "end"    -> Ends(st, o.offer)
      [] o.op \in {"delete", "deletemeta"} -> {Delete(st, o)}

(* ------------------------------ design model ---------------------------- *)
CONSTANTS K, Vers, MaxOffers, MaxFlying
VARIABLES st, hist

Init == st = EmptyCache(K) /\ hist = <<>>
Offers == {[op |-> o, k |-> k, ver |-> v, ok |-> b] :
            o \in {"offer", "begin"}, k \in K, v \in Vers, b \in BOOLEAN}
Deletes == {[op |-> "delete", k |-> k, ver |-> v] : k \in K, v \in Vers \cup {""}}
      \cup {[op |-> "deletemeta", k |-> k, ver |-> ""] : k \in K}
Do(o) == st' \in Succ(st, o) /\ hist' = Append(hist, o)
Next == \/ \E o \in Offers :
              /\ st.offers < MaxOffers
              /\ o.op = "begin" => Cardinality(st.flying) < MaxFlying
              /\ Do(o)
        \* a delete racing with an unfinished offer of the same resource may
        \* take effect on either side of it: not constrained, not explored
        \/ \E o \in Deletes : (\A f \in st.flying : f.k # o.k) /\ Do(o)
        \/ \E f \in st.flying : Do([op |-> "end", offer |-> f.offer])

View == st
Idle == st.flying = {}

(* The property, over the history of offers. *)
OfferIdx == {j \in 1..Len(hist) : hist[j].op \in {"offer", "begin"}}
LastOffer(k) == LET S == {j \in OfferIdx : hist[j].k = k}
                IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A j2 \in S : j2 <= j
LatestWins == Idle => \A k \in K :
    Present(st.entry[k]) => st.entry[k].ver = hist[LastOffer(k)].ver
PrepareOncePerVersion ==
    [][\A o \in Offers : (hist' = Append(hist, o) /\ Hit(st, o))
            => st'.preps = st.preps /\ st'.entry = st.entry]_<<st, hist>>
StaleDeleteHarmless ==
    [][\A o \in Deletes : (hist' = Append(hist, o) /\ o.ver # ""
                           /\ o.ver # st.entry[o.k].ver)
            => st'.entry = st.entry]_<<st, hist>>
Emit == PrintT("T " \o ToJson(hist'))
=============================================================================
