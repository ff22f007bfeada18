------------------------------- MODULE KValue -------------------------------
(* JSON-like values as tagged tuples, and the operations Koreo and the      *)
(* Kubernetes API perform on them.                                          *)
(*   <<"z">>  <<"b",bool>>  <<"n",numeral>>  <<"s",str>>                     *)
(*   <<"l",seq>>  <<"m",[key -> value]>>  <<"none">> : absent                *)
(*   <<"e",type>> : not a JSON value (an error object, ...)                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<"none">>
Null == <<"z">>
EmptyFn == [x \in {} |-> None]
EmptyMap == <<"m", EmptyFn>>
IsMap(v) == v[1] = "m"
IsList(v) == v[1] = "l"
IsSimple(v) == v[1] \in {"b", "n", "s"}

RECURSIVE Eq(_, _)
Eq(a, b) ==
    IF a[1] # b[1] THEN FALSE
    ELSE CASE a[1] \in {"z", "none"} -> TRUE
           [] a[1] = "l" -> /\ Len(a[2]) = Len(b[2])
                            /\ \A i \in 1..Len(a[2]) : Eq(a[2][i], b[2][i])
           [] a[1] = "m" -> /\ DOMAIN a[2] = DOMAIN b[2]
                            /\ \A k \in DOMAIN a[2] : Eq(a[2][k], b[2][k])
           [] OTHER -> a[2] = b[2]

Get(v, k) == IF IsMap(v) /\ k \in DOMAIN v[2] THEN v[2][k] ELSE None
With(v, k, x) ==
    LET f == IF IsMap(v) THEN v[2] ELSE EmptyFn
    IN <<"m", [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]>>
Without(v, ks) ==
    IF ~IsMap(v) THEN v
    ELSE <<"m", [y \in DOMAIN v[2] \ ks |-> v[2][y]]>>

(* No error object (or other non-JSON value) anywhere.                      *)
RECURSIVE Clean(_)
Clean(v) ==
    CASE v[1] = "e" -> FALSE
      [] v[1] = "l" -> \A i \in 1..Len(v[2]) : Clean(v[2][i])
      [] v[1] = "m" -> \A k \in DOMAIN v[2] : Clean(v[2][k])
      [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Overlays: maps merge key by key, every other value (lists, scalars,      *)
(* empty maps) replaces.                                                    *)
RECURSIVE DeepMerge(_, _)
DeepMerge(base, over) ==
    IF ~IsMap(over) \/ DOMAIN over[2] = {} THEN over
    ELSE LET b == IF IsMap(base) THEN base[2] ELSE EmptyFn
             o == over[2]
         IN <<"m", [k \in DOMAIN b \cup DOMAIN o |->
                       IF k \notin DOMAIN o THEN b[k]
                       ELSE IF k \in DOMAIN b THEN DeepMerge(b[k], o[k])
                       ELSE DeepMerge(None, o[k])]>>

(* RFC 7386.                                                                *)
RECURSIVE MergePatch(_, _)
MergePatch(live, patch) ==
    IF ~IsMap(patch) THEN patch
    ELSE LET b == IF IsMap(live) THEN live[2] ELSE EmptyFn
             p == patch[2]
             keep == {k \in DOMAIN p : p[k] # Null}
         IN <<"m", [k \in (DOMAIN b \ DOMAIN p) \cup keep |->
                       IF k \in keep
                       THEN MergePatch(IF k \in DOMAIN b THEN b[k] ELSE None, p[k])
                       ELSE b[k]]>>

-----------------------------------------------------------------------------
(* Comparison directives.                                                   *)
AS_SET == "x-koreo-compare-as-set"
AS_MAP == "x-koreo-compare-as-map"
AS_LAST == "x-koreo-compare-last-applied"
Directives == {AS_SET, AS_MAP, AS_LAST}

Names(v) == IF IsList(v) THEN {v[2][i][2] : i \in {j \in 1..Len(v[2]) : v[2][j][1] = "s"}}
            ELSE {}
SetKeys(t) == Names(Get(t, AS_SET))
LastKeys(t) == Names(Get(t, AS_LAST))
MapKeys(t) == IF IsMap(Get(t, AS_MAP)) THEN DOMAIN Get(t, AS_MAP)[2] ELSE {}
MapFields(t, k) == Names(Get(t, AS_MAP)[2][k])
Fields(t) == DOMAIN t[2] \ Directives

RECURSIVE Strip(_)
Strip(v) ==
    CASE v[1] = "m" -> <<"m", [k \in Fields(v) |-> Strip(v[2][k])]>>
      [] v[1] = "l" -> <<"l", [i \in 1..Len(v[2]) |-> Strip(v[2][i])]>>
      [] OTHER -> v

RECURSIVE NoDirectives(_)
NoDirectives(v) ==
    CASE v[1] = "m" -> /\ DOMAIN v[2] \cap Directives = {}
                       /\ \A k \in DOMAIN v[2] : NoDirectives(v[2][k])
      [] v[1] = "l" -> \A i \in 1..Len(v[2]) : NoDirectives(v[2][i])
      [] OTHER -> TRUE

SetEq(a, b) ==
    /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : Eq(a[i], b[j])
    /\ \A j \in 1..Len(b) : \E i \in 1..Len(a) : Eq(a[i], b[j])
(* a null key field is no key field                                         *)
KeyPart(x, f) == IF Get(x, f) = Null THEN None ELSE Get(x, f)
SameKey(x, y, fs) == IsMap(x) /\ IsMap(y) /\ \A f \in fs : Eq(KeyPart(x, f), KeyPart(y, f))
At(v, i) == IF IsList(v) /\ i \in 1..Len(v[2]) THEN v[2][i] ELSE None
ItemLike(v, x, fs) ==
    IF ~IsList(v) THEN None
    ELSE LET js == {j \in 1..Len(v[2]) : SameKey(v[2][j], x, fs)}
         IN IF js = {} THEN None ELSE v[2][CHOOSE j \in js : TRUE]

(* `a` certainly meets the target `t` (`la`: the last applied value).       *)
RECURSIVE Met(_, _, _), FieldMet(_, _, _, _)
Met(t, a, la) ==
    CASE t[1] = "m" ->
            /\ IsMap(a)
            /\ \A k \in Fields(t) :
                  /\ k \in DOMAIN a[2]
                  /\ FieldMet(t, k, a[2][k], Get(la, k))
                  /\ k \in LastKeys(t) =>
                        /\ Get(la, k) # None
                        /\ FieldMet(t, k, Get(la, k), Get(la, k))
      [] t[1] = "l" -> /\ IsList(a)
                       /\ Len(t[2]) = Len(a[2])
                       /\ \A i \in 1..Len(t[2]) : Met(t[2][i], a[2][i], At(la, i))
      [] OTHER -> Eq(t, a)
FieldMet(t, k, av, la) ==
    LET tv == t[2][k] IN
    IF k \in SetKeys(t) /\ IsList(tv)
    THEN IsList(av) /\ SetEq(tv[2], av[2])
    ELSE IF k \in MapKeys(t) /\ IsList(tv)
    THEN LET fs == MapFields(t, k) IN
         /\ IsList(av)
         /\ Len(tv[2]) = Len(av[2])
         /\ \A i \in 1..Len(tv[2]) : \E j \in 1..Len(av[2]) :
               /\ SameKey(tv[2][i], av[2][j], fs)
               /\ Met(tv[2][i], av[2][j], ItemLike(la, tv[2][i], fs))
    ELSE Met(tv, av, la)

(* `a` certainly differs from the target in a field the target specifies.   *)
(* Between the two lies what the documentation leaves open: extra members   *)
(* of a map-directed list, the resource's own ownerReferences (they belong  *)
(* to its owners, C07), last-applied fields.  `w` says where we are: "root",*)
(* "metadata" (the resource's own) or "deep".                               *)
RECURSIVE DiffersIn(_, _, _), FieldDiffers(_, _, _, _)
Differs(t, a) == DiffersIn(t, a, "root")
DiffersIn(t, a, w) ==
    CASE t[1] = "m" ->
            \/ ~IsMap(a)
            \/ \E k \in Fields(t) \ (LastKeys(t) \cup
                        (IF w = "deep" THEN {} ELSE {"ownerReferences"})) :
                  \/ k \notin DOMAIN a[2]
                  \/ FieldDiffers(t, k, a[2][k],
                        IF w = "root" /\ k = "metadata" THEN "metadata" ELSE "deep")
      [] t[1] = "l" -> \/ ~IsList(a)
                       \/ Len(t[2]) # Len(a[2])
                       \/ \E i \in 1..Len(t[2]) : DiffersIn(t[2][i], a[2][i], "deep")
      [] OTHER -> ~Eq(t, a)
FieldDiffers(t, k, av, w) ==
    LET tv == t[2][k] IN
    IF k \in SetKeys(t) /\ IsList(tv)
    THEN ~IsList(av) \/ ~SetEq(tv[2], av[2])
    ELSE IF k \in MapKeys(t) /\ IsList(tv)
    THEN LET fs == MapFields(t, k) IN
         \/ ~IsList(av)
         \/ \E i \in 1..Len(tv[2]) : \A j \in 1..Len(av[2]) :
               ~(SameKey(tv[2][i], av[2][j], fs) /\ ~DiffersIn(tv[2][i], av[2][j], "deep"))
    ELSE DiffersIn(tv, av, w)
=============================================================================
