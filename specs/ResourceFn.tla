----------------------------- MODULE ResourceFn -----------------------------
(* One ResourceFunction managing one object, reconciled again and again     *)
(* while the server decorates the object and other actors change it.        *)
EXTENDS KValue, Json

CONSTANTS Scope     \* "full" | "emit" : size of the explored value universe
VARIABLES cfg, target, live, la, owners, mut, prev

vars == <<cfg, target, live, la, owners, mut, prev>>

(* What one pass may do to the cluster.                                     *)
Decide(c, absent, met, differs, ownerOk) ==
    IF c.del THEN (IF absent THEN {"none"} ELSE {"delete"})
    ELSE IF absent THEN (IF c.ro \/ ~c.create THEN {"none"} ELSE {"create"})
    ELSE IF c.ro \/ c.update = "never" THEN {"none"}
    ELSE LET act == IF c.update = "patch" THEN "patch" ELSE "delete" IN
         IF met /\ ownerOk THEN {"none"}
         ELSE IF differs THEN {act}
         ELSE IF met /\ c.update = "patch" THEN {"patch"}
         ELSE {act, "none"}

(* Mutations a configuration may ever make (C07).                           *)
Allowed(c) ==
    IF c.del THEN {"delete"}
    ELSE IF c.ro THEN {}
    ELSE (IF c.create THEN {"create"} ELSE {})
         \cup (CASE c.update = "patch" -> {"patch"}
                 [] c.update = "recreate" -> {"delete"}
                 [] OTHER -> {})

-----------------------------------------------------------------------------
(* Design model over a small value universe.                                *)
N0 == <<"n", "0">>   N1 == <<"n", "1">>
BF == <<"b", FALSE>> BT == <<"b", TRUE>>
S0 == <<"s", "">>    S1 == <<"s", "1">>
L(s) == <<"l", s>>
M(f) == <<"m", f>>
Leaves == {N0, N1, BF, BT, S0, S1}
Maps1 == {EmptyMap, M([x |-> N1]), M([x |-> N0]), M([x |-> N1, y |-> S1])}
Lists1 == {L(<<>>), L(<<N1>>), L(<<N1, S1>>), L(<<S1, N1>>), L(<<BT>>),
           L(<<M([x |-> N1, k |-> S1])>>), L(<<M([x |-> N0, k |-> S1])>>),
           L(<<M([x |-> N1, k |-> S0]), M([x |-> N0, k |-> S1])>>),
           L(<<M([x |-> N0, k |-> S1]), M([x |-> N1, k |-> S0, z |-> N1])>>)}
Values == Leaves \cup Maps1 \cup Lists1
AllMaps(v) == \A i \in 1..Len(v[2]) : IsMap(v[2][i])
NoMaps(v) == \A i \in 1..Len(v[2]) : ~IsMap(v[2][i])
Targets ==
    {M([a |-> v]) : v \in Values}
    \cup {With(M([a |-> v]), AS_SET, L(<<<<"s", "a">>>>)) : v \in {x \in Lists1 : NoMaps(x)}}
    \cup {With(M([a |-> v]), AS_MAP, M([a |-> L(<<<<"s", "k">>>>)])) : v \in {x \in Lists1 : AllMaps(x)}}
    \cup {With(M([a |-> v]), AS_LAST, L(<<<<"s", "a">>>>)) : v \in {N1, L(<<N1>>)}}
    \cup {M([a |-> M([x |-> v])]) : v \in {S0, L(<<>>)}}
Lives ==
    {M([a |-> v]) : v \in Values \cup {Null}} \cup {EmptyMap}
    \cup {M([a |-> v, b |-> N1]) : v \in (IF Scope = "emit" THEN {N1, EmptyMap} ELSE Values)}
Cfgs == [ro : BOOLEAN, create : BOOLEAN, update : {"patch", "recreate", "never"},
         del : BOOLEAN, own : BOOLEAN]

OwnerOk == ~cfg.own \/ "p" \in owners
Init == /\ cfg \in Cfgs
        /\ target \in Targets
        /\ live \in {None}
        /\ la = None
        /\ owners = {}
        /\ mut = "none"
        /\ prev = "none"

Actions == Decide(cfg, live = None, Met(target, live, la), Differs(target, live), OwnerOk)

Pass ==
    \E act \in Actions :
       /\ mut' = act
       /\ prev' = mut
       /\ CASE act = "none" -> UNCHANGED <<live, la, owners>>
            [] act = "create" -> /\ live' = Strip(target)
                                 /\ la' = Strip(target)
                                 /\ owners' = IF cfg.own THEN {"p"} ELSE {}
            [] act = "patch" -> /\ live' = MergePatch(live, Strip(target))
                                /\ la' = Strip(target)
                                /\ owners' = owners \cup (IF cfg.own THEN {"p"} ELSE {})
            [] act = "delete" -> live' = None /\ la' = None /\ owners' = {}
       /\ UNCHANGED <<cfg, target>>
(* Other actors: rewrite the object, create it, delete it, adopt it.        *)
Other ==
    /\ mut' = "other" /\ prev' = mut
    /\ \/ live' \in Lives /\ owners' \in {owners, {}, {"o"}} /\ UNCHANGED la
       \/ live # None /\ live' = With(live, "b", S1) /\ UNCHANGED <<la, owners>>
       \/ live # None /\ live' = None /\ la' = None /\ owners' = {}
    /\ UNCHANGED <<cfg, target>>
Next == Pass \/ Other
Spec == Init /\ [][Next]_vars

(* C04: right after a create or patch nothing is left to do, and an         *)
(* unchanged object that meets the target is left alone.                    *)
AfterWrite == mut \in {"create", "patch"} => Met(target, live, la) /\ OwnerOk
NoLoop == mut \in {"create", "patch"} => Actions = {"none"}
NoLoopStep == [][(mut \in {"create", "patch"} /\ mut' # "other") => mut' = "none"]_vars
LeaveAlone == Met(target, live, la) /\ OwnerOk /\ ~cfg.del /\ live # None => Actions = {"none"}
(* C05: definite drift is corrected exactly as the policy says.             *)
Corrects ==
    (live # None /\ Differs(target, live) /\ ~cfg.ro /\ ~cfg.del) =>
        Actions = (CASE cfg.update = "patch" -> {"patch"}
                     [] cfg.update = "recreate" -> {"delete"}
                     [] OTHER -> {"none"})
Exclusive == ~(Met(target, live, la) /\ Differs(target, live))
(* C07 *)
Modes == mut \notin {"none", "other"} => mut \in Allowed(cfg)
(* C08: a patch never drops an owner.                                       *)
OwnersKept == [][mut' = "patch" => owners \subseteq owners']_vars

EmitInit ==
    /\ cfg = [ro |-> FALSE, create |-> TRUE, update |-> "patch", del |-> FALSE, own |-> FALSE]
    /\ target \in Targets /\ live \in Lives
    /\ la = None /\ owners = {} /\ mut = "none" /\ prev = "none"
Emit == PrintT("T " \o ToJson([t |-> target, l |-> live, act |-> mut', after |-> live']))
EmitNext == mut = "none" /\ Pass
=============================================================================
