------------------------------ MODULE FTestSem ------------------------------
(* FunctionTests (C18, C19): what a case starts from, what its Function does, *)
(* what an assertion claims about that, and what the next case starts from.   *)
(*                                                                          *)
(* behaviour: [c: outcome class, m: message, d: delay (-1: not told),         *)
(*   v: value of an Ok, sent: the object of a create or patch (None),         *)
(*   deleted: BOOLEAN, after: the resource afterwards (None: absent)]         *)
(* assertion: [k: "return" | "resource" | "delete" | "outcome", v, c, m, d]   *)
(* case: [ov: inputOverrides, cur: currentResource, lay: overlayResource      *)
(*   (None when not given), bad: the overlay cannot be evaluated,             *)
(*   variant, skip, as: assertion]                                           *)
(* The annotation Koreo keeps its last applied configuration in is left out.  *)
EXTENDS KValue, TLC

-----------------------------------------------------------------------------
(* Exact comparison, modulo directives of the expected object.  XSame: the   *)
(* two certainly are the same; XDiff: they certainly differ; in between is    *)
(* only how often a repeated member of a map-directed list occurs.            *)
RECURSIVE XSame(_, _), XDiff(_, _)
SetSame(x, y) ==
    /\ \A i \in 1..Len(x) : \E j \in 1..Len(y) : XSame(x[i], y[j])
    /\ \A j \in 1..Len(y) : \E i \in 1..Len(x) : XSame(x[i], y[j])
SetDiff(x, y) ==
    \/ \E i \in 1..Len(x) : \A j \in 1..Len(y) : XDiff(x[i], y[j])
    \/ \E j \in 1..Len(y) : \A i \in 1..Len(x) : XDiff(x[i], y[j])
Keyed(x, fs) == \A i, j \in 1..Len(x) : i # j => ~SameKey(x[i], x[j], fs)
AllMaps(x) == \A i \in 1..Len(x) : IsMap(x[i])
MapSame(x, y, fs) ==
    /\ AllMaps(x) /\ AllMaps(y) /\ Len(x) = Len(y) /\ Keyed(x, fs) /\ Keyed(y, fs)
    /\ \A i \in 1..Len(x) : \E j \in 1..Len(y) : SameKey(x[i], y[j], fs) /\ XSame(x[i], y[j])
MapDiff(x, y, fs) ==
    \/ \E i \in 1..Len(x) : \A j \in 1..Len(y) : XDiff(x[i], y[j])
    \/ \E j \in 1..Len(y) : \A i \in 1..Len(x) : XDiff(x[i], y[j])
XSame(e, a) ==
    CASE e[1] = "m" ->
            /\ IsMap(a) /\ Fields(e) = Fields(a)
            /\ \A k \in Fields(e) :
                 LET x == e[2][k]  y == a[2][k] IN
                 IF k \in SetKeys(e) /\ IsList(x) THEN IsList(y) /\ SetSame(x[2], y[2])
                 ELSE IF k \in MapKeys(e) /\ IsList(x) THEN IsList(y) /\ MapSame(x[2], y[2], MapFields(e, k))
                 ELSE XSame(x, y)
      [] e[1] = "l" -> /\ IsList(a) /\ Len(e[2]) = Len(a[2])
                       /\ \A i \in 1..Len(e[2]) : XSame(e[2][i], a[2][i])
      [] OTHER -> Eq(e, a)
XDiff(e, a) ==
    CASE e[1] = "m" ->
            \/ ~IsMap(a) \/ Fields(e) # Fields(a)
            \/ \E k \in Fields(e) :
                 LET x == e[2][k]  y == a[2][k] IN
                 IF k \in SetKeys(e) /\ IsList(x) THEN ~IsList(y) \/ SetDiff(x[2], y[2])
                 ELSE IF k \in MapKeys(e) /\ IsList(x) THEN ~IsList(y) \/ MapDiff(x[2], y[2], MapFields(e, k))
                 ELSE XDiff(x, y)
      [] e[1] = "l" -> \/ ~IsList(a) \/ Len(e[2]) # Len(a[2])
                       \/ \E i \in 1..Len(e[2]) : XDiff(e[2][i], a[2][i])
      [] OTHER -> ~Eq(e, a)

(* What the comparator of function_test/run.py makes of them, which is known  *)
(* not to be that: set-directed lists are compared as Python sets (1 is true,  *)
(* objects are in none), map-directed lists by texts of their key fields (the  *)
(* last of several members counts), and what is no list of objects crashes.    *)
(* "yes" | "no" | "crash".  Only used to name the known finding.               *)
PyEq(x, y) ==
    LET num(v) == IF v[1] = "b" THEN <<"n", IF v[2] THEN "1" ELSE "0">> ELSE v
    IN Eq(num(x), num(y))
Hashable(x) == \A i \in 1..Len(x) : ~IsMap(x[i]) /\ ~IsList(x[i])
LooseSets(x, y) ==
    IF /\ Hashable(x) /\ Hashable(y)
       /\ \A i \in 1..Len(x) : \E j \in 1..Len(y) : PyEq(x[i], y[j])
       /\ \A j \in 1..Len(y) : \E i \in 1..Len(x) : PyEq(x[i], y[j])
    THEN "yes" ELSE "no"
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Blanks == {" ", "~9;", "~a;", "~b;", "~c;", "~d;"}
RECURSIVE TrimLeft(_), Trimmed(_)
TrimLeft(s) == IF \E p \in Blanks : Starts(s, p)
               THEN LET p == CHOOSE p \in Blanks : Starts(s, p) IN TrimLeft(SubSeq(s, Len(p) + 1, Len(s)))
               ELSE s
Trimmed(s) == IF \E p \in Blanks : Ends(s, p)
              THEN LET p == CHOOSE p \in Blanks : Ends(s, p) IN Trimmed(SubSeq(s, 1, Len(s) - Len(p)))
              ELSE TrimLeft(s)
PyText(v) == CASE v[1] = "s" -> Trimmed(v[2])
               [] v[1] = "n" -> v[2]
               [] v[1] = "b" -> IF v[2] THEN "True" ELSE "False"
               [] v[1] \in {"z", "none"} -> "None"
               [] OTHER -> ToString(v)
RECURSIVE KeyText(_, _, _)
KeyText(x, fs, n) == IF n > Len(fs) THEN ""
                     ELSE (IF n = 1 THEN "" ELSE "$") \o PyText(Get(x, fs[n][2])) \o KeyText(x, fs, n + 1)
KeyOf(x, fs) == KeyText(x, SelectSeq(fs, LAMBDA f : f # <<"s", "">>), 1)
(* an object, or no object at all                                            *)
Keyable(x) == CASE x[1] = "l" -> \A i \in 1..Len(x[2]) : IsMap(x[2][i])
                [] x[1] = "m" -> DOMAIN x[2] = {}
                [] x[1] = "s" -> x[2] = ""
                [] OTHER -> FALSE
ByKey(x, fs) ==
    IF ~IsList(x) THEN EmptyMap
    ELSE LET ks == {KeyOf(x[2][i], fs) : i \in 1..Len(x[2])}
             last(k) == CHOOSE i \in 1..Len(x[2]) :
                           /\ KeyOf(x[2][i], fs) = k
                           /\ \A j \in i + 1..Len(x[2]) : KeyOf(x[2][j], fs) # k
         IN <<"m", [k \in ks |-> x[2][last(k)]]>>
Worst(S) == IF "crash" \in S THEN "crash" ELSE IF "no" \in S THEN "no" ELSE "yes"
RECURSIVE Loose(_, _)
Loose(e, a) ==
    CASE IsMap(e) /\ IsMap(a) ->
            Worst({IF Fields(e) = Fields(a) THEN "yes" ELSE "no"} \cup
                  {LET x == e[2][k]  y == a[2][k] IN
                   IF k \in MapKeys(e)
                   THEN IF ~Keyable(x) \/ ~Keyable(y) THEN "crash"
                        ELSE LET fs == Get(e, AS_MAP)[2][k][2] IN Loose(ByKey(x, fs), ByKey(y, fs))
                   ELSE IF k \in SetKeys(e) /\ IsList(x) /\ IsList(y) THEN LooseSets(x[2], y[2])
                   ELSE Loose(x, y) : k \in Fields(e) \cap Fields(a)})
      [] IsList(e) /\ IsList(a) ->
            IF Len(e[2]) # Len(a[2]) THEN "no"
            ELSE Worst({Loose(e[2][i], a[2][i]) : i \in 1..Len(e[2])})
      [] OTHER -> IF Eq(e, a) THEN "yes" ELSE "no"

Contains(text, part) ==
    \/ Len(part) = 0
    \/ \E i \in 1..(Len(text) - Len(part) + 1) : SubSeq(text, i, i + Len(part) - 1) = part

(* Whether a behaviour bears the assertion out: "yes", "no" or "open".  The   *)
(* lower case texts `lm` decide where only the case of letters differs.       *)
Holds(as, b) ==
    CASE as.k = "return" ->
            IF b.c # "Ok" THEN "no"
            ELSE IF XSame(as.v, b.v) THEN "yes" ELSE IF XDiff(as.v, b.v) THEN "no" ELSE "open"
      [] as.k = "resource" ->
            IF b.sent = None THEN "no"
            ELSE IF XSame(as.v, b.sent) THEN "yes" ELSE IF XDiff(as.v, b.sent) THEN "no" ELSE "open"
      [] as.k = "delete" -> IF as.v[2] = b.deleted THEN "yes" ELSE "no"
      [] as.k = "outcome" ->
            IF as.c # b.c THEN "no"
            ELSE IF as.c = "Ok" THEN "yes"
            ELSE IF as.c = "Retry" /\ as.d # 0 /\ as.d # b.d THEN "no"
            ELSE IF Contains(b.m, as.m) THEN "yes"
            ELSE IF Contains(b.lm, as.lm) THEN "open" ELSE "no"

(* What the runner is known to say instead.                                   *)
Known(as, b) ==
    CASE as.k = "return" -> IF b.c = "Ok" THEN Loose(as.v, b.v) ELSE "no"
      [] as.k = "resource" -> IF b.deleted THEN Loose(as.v, EmptyMap)
                              ELSE IF b.sent = None THEN "no" ELSE Loose(as.v, b.sent)
      [] OTHER -> ""
(* The verdict `pass` about an assertion: what is wrong with it.  Finding     *)
(* another outcome class is no matter of comparing.                          *)
Misjudged(as, b, pass) ==
    LET h == Holds(as, b)
        k == Known(as, b)
        usual(c) == IF (k = "yes") # pass \/ k \in {"", "crash"} THEN c \o as.k
                    ELSE IF as.k = "resource" /\ b.deleted THEN "deletion-is-an-empty-resource"
                    ELSE "loose-comparison"
    IN IF h = "yes" /\ ~pass THEN {usual("false-fail-")}
       ELSE IF h = "no" /\ pass THEN {usual("false-pass-")}
       ELSE {}
KnownClauses == {"loose-comparison", "deletion-is-an-empty-resource", "comparison-crashes"}
Crashes(as, b) == IF Known(as, b) = "crash" THEN {"comparison-crashes"} ELSE {"raised"}

-----------------------------------------------------------------------------
(* The chain.  What the documents leave open is a reading: how overrides      *)
(* merge into the inputs, how a patch merges into the resource.               *)
Readings == [ins : {"deep", "keep-empty", "top"}, patch : {"top", "deep"}]
RECURSIVE DeepKeep(_, _)
DeepKeep(base, over) ==
    IF ~IsMap(over) \/ ~IsMap(base) THEN over
    ELSE <<"m", [k \in DOMAIN base[2] \cup DOMAIN over[2] |->
                    IF k \notin DOMAIN over[2] THEN base[2][k]
                    ELSE IF k \in DOMAIN base[2] THEN DeepKeep(base[2][k], over[2][k])
                    ELSE over[2][k]]>>
Top(base, over) == <<"m", over[2] @@ base[2]>>
Empty(v) == v = None \/ v = EmptyMap
Inputs(ins, over, r) ==
    IF Empty(over) THEN IF Empty(ins) THEN EmptyMap ELSE ins
    ELSE IF Empty(ins) THEN over
    ELSE CASE r.ins = "deep" -> DeepMerge(ins, over)
           [] r.ins = "keep-empty" -> DeepKeep(ins, over)
           [] OTHER -> Top(ins, over)
(* What a case starts from: [setup: "ok" | "fails" | "abort", ins, res].      *)
Start(st, c, r) ==
    LET ins == Inputs(st.ins, c.ov, r) IN
    IF ~Empty(c.lay)
    THEN IF Empty(st.res) THEN [setup |-> "abort", ins |-> ins, res |-> None]
         ELSE IF c.bad THEN [setup |-> "fails", ins |-> ins, res |-> st.res]
         ELSE [setup |-> "ok", ins |-> ins, res |-> DeepMerge(st.res, c.lay)]
    ELSE [setup |-> "ok", ins |-> ins, res |-> IF Empty(c.cur) THEN IF Empty(st.res) THEN None ELSE st.res ELSE c.cur]

-----------------------------------------------------------------------------
(* The Functions the specification knows: they show what they are given.      *)
(* [kind: "vf" | "rf", ident: the identity, static: a document, update:       *)
(*  "patch" | "recreate" | "never", create, ro, del: BOOLEAN, cd, ud: delays]  *)
Mode(ins) == Get(ins, "mode")
Stop(c, d) == [c |-> c, m |-> "", lm |-> "", d |-> d, v |-> None, sent |-> None, deleted |-> FALSE]
Refused(ins) ==
    CASE Mode(ins) = <<"s", "skip">> -> {Stop("Skip", 0)}
      [] Mode(ins) = <<"s", "dep">> -> {Stop("DepSkip", 0)}
      [] Mode(ins) = <<"s", "retry">> -> {Stop("Retry", 7)}
      [] Mode(ins) = <<"s", "perm">> -> {Stop("PermFail", 0)}
      [] OTHER -> {}
Target(f, ins) == With(f.ident, "spec", With(f.static, "seen", ins))
Merged(res, sent, r) == IF r.patch = "top" THEN Top(res, sent) ELSE DeepMerge(res, sent)
Or(v, alt) == IF v = None THEN alt ELSE v
Ready(res) == Get(Get(res, "status"), "ready") = <<"b", TRUE>>
Returned(f, ins, res) ==
    <<"m", [seen |-> ins, spec |-> Or(Get(res, "spec"), <<"s", "no spec">>),
            status |-> Or(Get(res, "status"), <<"s", "no status">>)]>>
Observed(f, ins, res) ==
    IF f.post /\ ~Ready(res) THEN Stop("Retry", 5)
    ELSE [Stop("Ok", 0) EXCEPT !.v = Returned(f, ins, res)]
Wrote(b, after) == [b |-> b, after |-> after]
Act(f, ins, res, r) ==
    IF Refused(ins) # {} THEN Wrote(CHOOSE b \in Refused(ins) : TRUE, res)
    ELSE IF f.kind = "vf"
    THEN Wrote([Stop("Ok", 0) EXCEPT !.v =
                   DeepMerge(IF Empty(res) THEN EmptyMap ELSE res, With(f.static, "seen", ins))], res)
    ELSE LET t == Target(f, ins) IN
         IF f.del
         THEN IF Empty(res) THEN Wrote(Observed(f, ins, EmptyMap), None)
              ELSE Wrote([Stop("Retry", -1) EXCEPT !.deleted = TRUE], None)
         ELSE IF Empty(res)
         THEN IF f.ro \/ ~f.create THEN Wrote(Stop("Retry", -1), None)
              ELSE Wrote([Stop("Retry", f.cd) EXCEPT !.sent = t], t)
         ELSE IF f.ro \/ f.update = "never" \/ Met(t, res, None) THEN Wrote(Observed(f, ins, res), res)
         ELSE IF f.update = "recreate" THEN Wrote([Stop("Retry", f.ud) EXCEPT !.deleted = TRUE], None)
         ELSE LET m == Merged(res, t, r) IN Wrote([Stop("Retry", f.ud) EXCEPT !.sent = m], m)
=============================================================================
