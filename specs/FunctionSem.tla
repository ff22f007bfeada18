---------------------------- MODULE FunctionSem -----------------------------
(* What one evaluation of a Function means, in terms of which of its         *)
(* expressions can be evaluated (C10) and how its assertions turn out (C13). *)
(*                                                                          *)
(* assertion: [t, k, m, me, d] with t: "T", "F", "N" (not a boolean) or "X"  *)
(*   (cannot be evaluated); k the outcome kind; m its message; me whether    *)
(*   the message cannot be evaluated; d the delay.                           *)
(* function: [kind: "vf"|"rf", pre, post: seq of assertions,                  *)
(*   bad: set of sites whose expressions cannot be evaluated,                *)
(*   world: "absent"|"stale"|"good" (what the cluster holds),                *)
(*   readonly, mayCreate: BOOLEAN, cd, ud: delays of create and patch]        *)
(* sites: "locals" "apiConfig" "resource" "template" "overlays" "create"      *)
(*   "return"                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Go == [c |-> "go"]
Stop(c, m, d) == [c |-> c, m |-> m, d |-> d, at |-> {}]
\* at: the places the PermFail may name
Fail(at) == [c |-> "PermFail", m |-> "", d |-> 0, at |-> at]

AllBool(ps) == \A j \in 1..Len(ps) : ps[j].t \in {"T", "F"}
FalseOnes(ps) == {j \in 1..Len(ps) : ps[j].t = "F"}
First(s) == CHOOSE j \in s : \A i \in s : j <= i
ClassOfKind(k) == CASE k = "skip" -> "Skip" [] k = "depSkip" -> "DepSkip"
                    [] k = "retry" -> "Retry" [] OTHER -> "PermFail"

(* The decisions a list of assertions at a place allows.  A message which    *)
(* cannot be evaluated is only certainly decisive when it is the one to be   *)
(* reported.                                                                *)
Decide(ps, place) ==
    IF ~AllBool(ps) THEN {Fail({place})}
    ELSE LET f == First(FalseOnes(ps))
             base == IF FalseOnes(ps) = {} \/ ps[f].k = "ok" THEN Go
                     ELSE IF ps[f].me THEN Fail({place})
                     ELSE Stop(ClassOfKind(ps[f].k), ps[f].m, IF ps[f].k = "retry" THEN ps[f].d ELSE 0)
         IN {base} \cup (IF \E j \in 1..Len(ps) : ps[j].me THEN {Fail({place})} ELSE {})

(* An expectation: the decision and the API calls which may, must be made.   *)
With_(o, may, must) == [c |-> o.c, m |-> o.m, d |-> o.d, at |-> o.at, may |-> may, must |-> must]
Reads == {"get"}

After(fn) ==
    UNION {IF o # Go THEN {With_(o, Reads, Reads)}
           ELSE IF "return" \in fn.bad THEN {With_(Fail({"return"}), Reads, Reads)}
           ELSE {With_(Stop("Ok", "", 0), Reads, Reads)}
           : o \in Decide(fn.post, "postconditions")}

Build(fn) ==
    fn.bad \cap ({"resource", "template", "overlays"}
                 \cup IF fn.world = "absent" THEN {"create"} ELSE {})

Body(fn) ==
    LET early == fn.bad \cap {"locals", "apiConfig"} IN
    IF fn.kind = "vf"
    THEN LET bad == fn.bad \cap {"locals"}
         IN IF bad # {} THEN {With_(Fail(bad), {}, {})}
            ELSE IF "return" \in fn.bad THEN {With_(Fail({"return"}), {}, {})}
            ELSE {With_(Stop("Ok", "", 0), {}, {})}
    ELSE IF early # {} THEN {With_(Fail(early), Reads, {})}
    ELSE IF fn.world = "absent" /\ (fn.readonly \/ ~fn.mayCreate)
         THEN {With_(Stop("Retry", "", -1), Reads, Reads)}
    ELSE IF fn.readonly THEN After(fn)
    ELSE IF Build(fn) # {} THEN {With_(Fail(Build(fn)), Reads, {})}
    ELSE CASE fn.world = "absent" -> {With_(Stop("Retry", "", fn.cd), {"get", "create"}, {"create"})}
           [] fn.world = "stale" -> {With_(Stop("Retry", "", fn.ud), {"get", "patch"}, {"patch"})}
           [] OTHER -> After(fn)

(* Everything a function may do.                                            *)
Expected(fn) ==
    UNION {IF o # Go THEN {With_(o, {}, {})} ELSE Body(fn)
           : o \in Decide(fn.pre, "preconditions")}
=============================================================================
