-------------------------- MODULE ResourceFnTrace --------------------------
(* Judges recorded passes of real ResourceFunctions.  A case is one         *)
(* function with its documents and a sequence of passes; each pass records  *)
(* the object before, the requests made, the outcome and the object after.  *)
EXTENDS Judging, KValue
VARIABLE i

RF == INSTANCE ResourceFn WITH Scope <- "emit", cfg <- 0, target <- 0, live <- 0,
                               la <- 0, owners <- 0, mut <- 0, prev <- 0

LA == "koreo.dev/last-applied-configuration"

(* Identity: apiConfig always wins.                                         *)
Identity(c) ==
    LET meta == IF c.api.namespaced
                THEN [name |-> <<"s", c.api.name>>, namespace |-> <<"s", c.api.ns>>]
                ELSE [name |-> <<"s", c.api.name>>]
    IN <<"m", [apiVersion |-> <<"s", c.api.version>>, kind |-> <<"s", c.api.kind>>,
               metadata |-> <<"m", meta>>]>>
RECURSIVE Layered(_, _)
Layered(doc, ls) ==
    IF Len(ls) = 0 THEN doc
    ELSE Layered(IF ls[1].skip THEN doc ELSE DeepMerge(doc, ls[1].doc), Tail(ls))
(* The last-applied annotation is bookkeeping, not specification.           *)
NoLA(doc) ==
    LET m == Get(doc, "metadata") a == Get(m, "annotations") IN
    IF LA \notin (IF IsMap(a) THEN DOMAIN a[2] ELSE {}) THEN doc
    ELSE With(doc, "metadata", With(m, "annotations", Without(a, {LA})))
Target(c) == NoLA(DeepMerge(Layered(c.base, c.layers), Identity(c)))
CreateTarget(c) ==
    IF c.createDoc = None THEN Target(c)
    ELSE DeepMerge(DeepMerge(Target(c), c.createDoc), Identity(c))

Refs(obj) == LET r == Get(Get(obj, "metadata"), "ownerReferences")
             IN IF IsList(r) THEN r[2] ELSE <<>>
HasUid(refs, uid) == \E k \in 1..Len(refs) : Eq(Get(refs[k], "uid"), uid)
Within(x, refs) == \E k \in 1..Len(refs) : Eq(refs[k], x)
SubRefs(a, b) == \A k \in 1..Len(a) : Within(a[k], b)
Uid(c) == Get(c.owner, "uid")
HasRefs(obj) == Get(Get(obj, "metadata"), "ownerReferences") # None
NoRefs(obj) ==
    IF IsMap(Get(obj, "metadata"))
    THEN With(obj, "metadata", Without(Get(obj, "metadata"), {"ownerReferences"}))
    ELSE obj
(* an empty annotations container carries no information                    *)
NoEmptyAnn(obj) ==
    IF Get(Get(obj, "metadata"), "annotations") = EmptyMap
    THEN With(obj, "metadata", Without(Get(obj, "metadata"), {"annotations"}))
    ELSE obj
Plain(obj) == NoEmptyAnn(NoRefs(obj))

Muts(p) == SelectSeq(p.reqs, LAMBDA r : r.verb \in {"create", "patch", "delete"})
Acts(p) == IF Len(Muts(p)) = 0 THEN "none"
           ELSE IF Len(Muts(p)) = 1 THEN Muts(p)[1].verb ELSE "many"
Absent(p) == p.live.obj = None
OwnerOk(c, obj) == ~c.cfg.own \/ HasUid(Refs(obj), Uid(c))
(* the last-applied annotation is not part of the comparison                *)
IsMet(c, l) == /\ l.obj # None
               /\ Met(NoEmptyAnn(Target(c)), l.obj, l.la)
IsDiff(c, l) == l.obj # None /\ Differs(NoEmptyAnn(Target(c)), l.obj)
Manages(c) == ~c.cfg.ro /\ ~c.cfg.del
Running(c) == c.pre = ""

C04(c, p) ==
    LET acts == Acts(p) IN
    IF ~Running(c) THEN {} ELSE
    If(/\ Manages(c) /\ IsMet(c, p.live) /\ OwnerOk(c, p.live.obj)
       /\ acts # "none", "C04:mutates-although-met")
    \cup If(/\ Manages(c) /\ IsMet(c, p.live) /\ OwnerOk(c, p.live.obj)
            /\ acts = "none" /\ p.out.c # "Ok", "C04:does-not-go-on")
    \cup If(acts # "none" /\ p.out.c # "Retry", "C04:mutation-not-retry")
    \cup If(acts = "create" /\ p.out.c = "Retry" /\ p.out.d # c.cfg.cd, "C04:create-delay")
    \cup If(/\ acts \in {"patch", "delete"} /\ ~c.cfg.del
            /\ p.out.c = "Retry" /\ p.out.d # c.cfg.ud, "C04:update-delay")
    \cup If(/\ acts \in {"create", "patch"} /\ ~IsMet(c, p.after)
            /\ (acts = "create" => ~c.contradicts), "C04:not-met-after-write")
    \cup If(acts \in {"create", "patch"} /\ ~OwnerOk(c, p.after.obj),
            "C04:owner-missing-after-write")

C05(c, p) ==
    LET acts == Acts(p)
        want == RF!Decide(c.cfg, FALSE, FALSE, TRUE, TRUE)
    IN
    IF ~Running(c) \/ ~Manages(c) \/ ~IsDiff(c, p.live) THEN {} ELSE
    If(acts \notin want, "C05:wrong-action")
    \cup (IF acts \notin want THEN {} ELSE
          If(acts \in {"patch", "delete"} /\ p.out.c # "Retry", "C05:not-retry")
          \cup If(acts = "patch" /\ ~Eq(Plain(Muts(p)[1].body), Plain(Strip(Target(c)))),
                  "C05:patch-not-full-target")
          \cup If(acts = "patch" /\ IsDiff(c, p.after), "C05:not-corrected"))

C06(c, p) ==
    UNION { LET r == p.reqs[k] IN
            If(\/ r.version # c.api.version \/ r.plural # c.api.plural
               \/ r.name # c.api.name
               \/ r.ns # (IF c.api.namespaced THEN c.api.ns ELSE ""),
               "C06:address-" \o r.verb)
            \cup (IF r.verb \notin {"create", "patch"} THEN {} ELSE
                  LET m == Get(r.body, "metadata") IN
                  If(Get(r.body, "apiVersion") # <<"s", c.api.version>>, "C06:apiVersion")
                  \cup If(Get(r.body, "kind") # <<"s", c.api.kind>>, "C06:kind")
                  \cup If(Get(m, "name") # <<"s", c.api.name>>, "C06:name")
                  \cup If(c.api.namespaced /\ Get(m, "namespace") # <<"s", c.api.ns>>,
                          "C06:namespace"))
          : k \in 1..Len(p.reqs) }
    \cup If(~p.others, "C06:touches-other-object")

C07(c, p) ==
    LET acts == Acts(p) IN
    If(~Running(c) /\ (Len(p.reqs) > 0 \/ p.looked > 0), "C07:api-call-although-precondition-failed")
    \cup UNION { If(Muts(p)[k].verb \notin RF!Allowed(c.cfg), "C07:forbidden-" \o Muts(p)[k].verb)
                 : k \in 1..Len(Muts(p)) }
    \cup If(/\ Running(c) /\ ~c.cfg.del /\ Absent(p) /\ (c.cfg.ro \/ ~c.cfg.create)
            /\ (p.out.c # "Retry" \/ acts # "none"), "C07:absent-not-waiting")
    \cup If(c.cfg.del /\ Absent(p) /\ acts # "none", "C07:delete-of-absent")

C08(c, p) ==
    UNION { LET r == p.reqs[k] b == r.body IN
            IF r.verb \notin {"create", "patch"} THEN {} ELSE
            If(~NoDirectives(b), "C08:directive-sent")
            \cup If(~r.laKnown, "C08:no-last-applied")
            \cup If(r.laKnown /\ ~Eq(NoEmptyAnn(r.la), NoEmptyAnn(b)), "C08:last-applied-untrue")
            \cup (IF r.verb = "create"
                  THEN If(c.cfg.own /\ ~HasUid(Refs(b), Uid(c)), "C08:owner-missing-on-create")
                       \cup If(~c.cfg.own /\ HasUid(Refs(b), Uid(c)), "C08:owner-not-allowed")
                  ELSE If(HasRefs(b) /\ ~SubRefs(Refs(p.live.obj), Refs(b)), "C08:owner-dropped")
                       \cup If(c.cfg.own /\ ~HasUid(Refs(p.live.obj), Uid(c))
                               /\ ~HasUid(Refs(b), Uid(c)), "C08:owner-missing-on-patch")
                       \cup If(~c.cfg.own /\ ~HasUid(Refs(p.live.obj), Uid(c))
                               /\ HasUid(Refs(b), Uid(c)), "C08:owner-not-allowed"))
            \cup If(\E n \in 1..Len(Refs(b)) :
                         LET x == Refs(b)[n] IN
                         Eq(Get(x, "uid"), Uid(c)) /\ ~Eq(x, c.owner) /\ ~Within(x, Refs(p.live.obj))
                         /\ ~Within(x, Refs(Target(c))),
                      "C08:owner-ref-altered")
          : k \in 1..Len(p.reqs) }
    \cup If(p.after.obj # None /\ p.live.obj # None /\ Acts(p) = "patch"
              /\ ~SubRefs(Refs(p.live.obj), Refs(p.after.obj)), "C08:owner-dropped")

(* C12: what is sent is exactly the layered merge.                          *)
C12(c, p) ==
    UNION { LET r == p.reqs[k] IN
            IF r.verb = "create" /\ ~Eq(Plain(r.body), Plain(Strip(CreateTarget(c))))
            THEN {"C12:create-payload-not-the-merge"}
            ELSE IF r.verb = "patch" /\ ~Eq(Plain(r.body), Plain(Strip(Target(c))))
            THEN {"C12:patch-payload-not-the-merge"} ELSE {}
          : k \in 1..Len(p.reqs) }

PassClauses(c, p) ==
    CASE c.prop = "C04" -> C04(c, p)
      [] c.prop = "C05" -> C05(c, p)
      [] c.prop = "C06" -> C06(c, p)
      [] c.prop = "C07" -> C07(c, p)
      [] c.prop = "C08" -> C08(c, p)
      [] c.prop = "C12" -> C12(c, p)

(* The environment model itself: a patch stored what RFC 7386 says (up to   *)
(* the server's own decorations, which only add).                           *)
ServerOk(c, p) ==
    Acts(p) = "patch" => ~Differs(Plain(MergePatch(p.live.obj, Muts(p)[1].body)), p.after.obj)
Verdict(c) ==
    UNION {PassClauses(c, c.passes[k]) : k \in 1..Len(c.passes)}
(* A repeated pass over an unchanged object after a write must be quiet.    *)
Loops(c) ==
    \E k \in 1..(Len(c.passes) - 1) :
       /\ Acts(c.passes[k]) \in {"create", "patch"}
       /\ Eq(c.passes[k].after.obj, c.passes[k + 1].live.obj)
       /\ Acts(c.passes[k + 1]) # "none"
Full(c) == Verdict(c)
    \cup If(c.prop = "C04" /\ ~c.contradicts /\ Loops(c), "C04:update-loop")

JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Full(Cases[i']))
         /\ Finish(i')
=============================================================================
