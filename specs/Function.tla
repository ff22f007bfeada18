------------------------------ MODULE Function ------------------------------
(* Function evaluation as a sequence of stages, the way an implementation    *)
(* goes about it: assertions are filtered for the false ones, the first of   *)
(* which is matched; stages run one after another and the first which cannot *)
(* be evaluated ends the pass.  Checked against the declarative FunctionSem. *)
EXTENDS FunctionSem, TLC, Json
CONSTANTS Kinds_, MaxPre, MaxPost, Sites, MaxBad, Worlds
VARIABLES fn, pc, out, calls

Msgs == [j \in 1..3 |-> "m" \o ToString(j)]
Truth == {"T", "F", "N", "X"}
PKinds == {"ok", "skip", "depSkip", "retry", "permFail"}
Assertion == [t : Truth, k : PKinds, me : BOOLEAN]
Valid(a) == (a.me => a.k # "ok") /\ (a.t \in {"N", "X"} => a.k = "skip" /\ ~a.me)
Lists(n) == UNION {[1..k -> {a \in Assertion : Valid(a)}] : k \in 0..n}
Dress(ps, tag) == [j \in 1..Len(ps) |->
    [t |-> ps[j].t, k |-> ps[j].k, me |-> ps[j].me, m |-> tag \o Msgs[j], d |-> 3 + 4 * j]]
Small(n) == {s \in SUBSET Sites : Cardinality(s) <= n}
Useful(k) == IF k = "vf" THEN {"locals", "return"} ELSE Sites

Init ==
    /\ \E k \in Kinds_, p \in Lists(MaxPre), q \in Lists(MaxPost), b \in Small(MaxBad),
          w \in Worlds, ro \in BOOLEAN, mc \in BOOLEAN :
         /\ k = "vf" => q = <<>> /\ w = "good" /\ ~ro /\ mc
         /\ ro => mc
         /\ b \subseteq Useful(k)
         /\ fn = [kind |-> k, pre |-> Dress(p, "a"), post |-> Dress(q, "z"), bad |-> b,
                  world |-> w, readonly |-> ro, mayCreate |-> mc, cd |-> 41, ud |-> 43]
    /\ pc = "pre" /\ out = Go /\ calls = <<>>

End(o) == out' = o /\ pc' = "done" /\ UNCHANGED <<fn, calls>>
To(p) == pc' = p /\ UNCHANGED <<fn, out, calls>>
\* the stage evaluates some sites, and goes on if it can
Stage(at, sites, next) ==
    /\ pc = at
    /\ LET b == fn.bad \cap sites
       IN IF b # {} THEN \E s \in b : End(Fail({s})) ELSE To(next)

(* Assertions: keep those which are not true; failing to negate one fails.    *)
Remaining(ps) == SelectSeq(ps, LAMBDA a : a.t # "T")
Match(ps, place, next) ==
    LET left == Remaining(ps) IN
    IF \E j \in 1..Len(left) : left[j].t # "F" THEN End(Fail({place}))
    ELSE IF \E j \in 1..Len(left) : left[j].me THEN End(Fail({place}))
    ELSE IF left = <<>> THEN To(next)
    ELSE IF left[1].k = "ok" THEN To(next)
    ELSE End(Stop(ClassOfKind(left[1].k), left[1].m, IF left[1].k = "retry" THEN left[1].d ELSE 0))

Pre == pc = "pre" /\ Match(fn.pre, "preconditions", "locals")
Locals == Stage("locals", {"locals"}, IF fn.kind = "vf" THEN "return" ELSE "config")
Config == Stage("config", {"apiConfig"}, "load")
Call(v) == calls' = Append(calls, v)
Load ==
    /\ pc = "load" /\ Call("get") /\ UNCHANGED fn
    /\ IF fn.world = "absent" /\ (fn.readonly \/ ~fn.mayCreate)
       THEN out' = Stop("Retry", "", -1) /\ pc' = "done"
       ELSE out' = out /\ pc' = IF fn.readonly THEN "post" ELSE "build"
Construct == Stage("build", {"resource", "template"}, "overlays")
Overlays == Stage("overlays", {"overlays"},
                  CASE fn.world = "absent" -> "create" [] fn.world = "stale" -> "patch" [] OTHER -> "post")
Mutate(verb, d) == Call(verb) /\ out' = Stop("Retry", "", d) /\ pc' = "done" /\ UNCHANGED fn
Create == pc = "create" /\ IF "create" \in fn.bad THEN End(Fail({"create"})) ELSE Mutate("create", fn.cd)
Patch == pc = "patch" /\ Mutate("patch", fn.ud)
Post == pc = "post" /\ Match(fn.post, "postconditions", "return")
Return == pc = "return" /\ End(IF "return" \in fn.bad THEN Fail({"return"}) ELSE Stop("Ok", "", 0))
Next == Pre \/ Locals \/ Config \/ Load \/ Construct \/ Overlays \/ Create \/ Patch \/ Post \/ Return

Done == {calls[j] : j \in 1..Len(calls)}
Meets(e) == /\ e.c = out.c /\ e.m = out.m /\ e.d = out.d
            /\ IF e.at = {} THEN out.at = {} ELSE out.at \subseteq e.at /\ out.at # {}
            /\ e.must \subseteq Done /\ Done \subseteq e.may
\* the stages do what the declarative meaning asks
Conforms == pc = "done" => \E e \in Expected(fn) : Meets(e)
\* C13: not continuing touches nothing
Untouched == (pc = "done" /\ calls = <<>> /\ fn.pre # <<>> /\ AllBool(fn.pre)
              /\ FalseOnes(fn.pre) # {} /\ fn.pre[First(FalseOnes(fn.pre))].k # "ok")
             => out.c # "Ok"
\* C10: nothing is mutated on a pass which ends in a failure
FailsClean == (pc = "done" /\ out.c = "PermFail") => Done \cap {"create", "patch", "delete"} = {}
Ends == pc # "done" => ENABLED Next

Emit == pc' = "done" => PrintT("T " \o ToJson(fn'))
=============================================================================
