------------------------------- MODULE Merge --------------------------------
(* How layers are applied (C12): an overlay is flattened into a tree of       *)
(* positions and one list of values, which are put back over a copy of the    *)
(* base.  A cached template is evaluated again and again; what it yields is   *)
(* the layered deep merge, every time, and it stays as it was.                *)
EXTENDS MergeSem, Json
CONSTANTS Engine, Big, MaxLayers, Rounds
VARIABLES template, layers, cur, at, round, first

Keys == <<"a", "b">>
AllKeys == {"a", "b"}
E0 == [inputs |-> EmptyMap, locals |-> EmptyMap, resource |-> EmptyMap]

(* Shapes: a leaf is ".", an empty map "{}".                                  *)
RECURSIVE Fill(_, _, _)
Fill(sh, tag, path) ==
    <<"m", [k \in {x \in AllKeys : sh[x] # <<"-">>} |->
        CASE sh[k] = <<".">> -> <<"s", tag \o path \o k>>
          [] sh[k] = <<"{}">> -> EmptyMap
          [] sh[k] = <<"[]">> -> <<"l", <<<<"s", tag \o path \o k>>>>>>
          [] sh[k][1] = "sub" -> Fill(sh[k][2], tag, path \o k)]>>
Maps(vals) == {f \in [AllKeys -> vals \cup {<<"-">>}] : \E k \in AllKeys : f[k] # <<"-">>}
Leaf == {<<".">>, <<"{}">>}
D1 == Maps(Leaf)
D2 == Maps(Leaf \cup {<<"sub", d>> : d \in D1})
Thin1 == Maps({<<".">>})
Thin2 == Maps({<<".">>} \cup {<<"sub", d>> : d \in Thin1})
Thin3 == Maps({<<".">>} \cup {<<"sub", d>> : d \in Thin2})

Full(m) == \A k \in AllKeys : m[k][1] = "sub"
Bases == {Fill(d, "B", "") : d \in
            CASE Big = "deep" -> {d \in Thin2 : Full(d)} \cup {d \in Thin3 : Full(d) /\ d["a"] = d["b"] /\ Full(d["a"][2])}
              [] Big = "deeper" -> {d \in Thin3 : Full(d)}
              [] OTHER -> D2}
Overs == IF Big = "wide" THEN D2 ELSE Thin3
Later == IF Big = "wide" THEN D1 ELSE Thin1

-----------------------------------------------------------------------------
(* Flattening: keys in their order, with a running base offset.               *)
RECURSIVE Flat(_, _, _)
Flat(m, ks, base) ==
    IF Len(ks) = 0 THEN [idx |-> EmptyFn, vals |-> <<>>]
    ELSE LET k == ks[Len(ks)]
             before == Flat(m, SubSeq(ks, 1, Len(ks) - 1), base)
             n == Len(before.vals)
         IN IF k \notin DOMAIN m[2] THEN before
            ELSE LET v == m[2][k] IN
                 IF IsMap(v) /\ (DOMAIN v[2] # {} \/ Engine = "empty-merges")
                 THEN LET off == CASE Engine = "no-base" -> n
                                   [] Engine = "no-siblings" -> base
                                   [] OTHER -> n + base
                          sub == Flat(v, Keys, off)
                      IN [idx |-> (k :> <<"t", sub.idx>>) @@ before.idx, vals |-> before.vals \o sub.vals]
                 ELSE [idx |-> (k :> <<"p", IF Engine = "leaf-no-base" THEN n ELSE n + base>>) @@ before.idx,
                       vals |-> Append(before.vals, v)]
RECURSIVE Apply(_, _, _)
Apply(base, idx, vals) ==
    LET b == IF IsMap(base) THEN base[2] ELSE EmptyFn IN
    <<"m", [k \in DOMAIN b \cup DOMAIN idx |->
        IF k \notin DOMAIN idx THEN b[k]
        ELSE IF idx[k][1] = "p"
             THEN (IF idx[k][2] + 1 \in 1..Len(vals) THEN vals[idx[k][2] + 1] ELSE <<"e", "index">>)
             ELSE Apply(IF k \in DOMAIN b /\ Engine # "fresh-maps" THEN b[k] ELSE None, idx[k][2], vals)]>>
Put(base, doc) == LET f == Flat(doc, Keys, 0) IN Apply(base, f.idx, f.vals)

-----------------------------------------------------------------------------
Init ==
    /\ template \in Bases
    /\ layers \in {<<[fn |-> FALSE, skip |-> <<"b", s>>, doc |-> Fill(d, "L", "")]>> : d \in Overs, s \in {FALSE}}
    /\ cur = template /\ at = 1 /\ round = 1 /\ first = None
AddLayer ==
    /\ Len(layers) < MaxLayers /\ round = 1 /\ at = 1
    /\ \E d \in Later, s \in BOOLEAN :
          layers' = Append(layers, [fn |-> FALSE, skip |-> <<"b", s>>, doc |-> Fill(d, "M", "")])
    /\ UNCHANGED <<template, cur, at, round, first>>
Step ==
    /\ at <= Len(layers)
    /\ cur' = IF layers[at].skip[2] /\ Engine # "ignores-skip" THEN cur ELSE Put(cur, layers[at].doc)
    /\ template' = IF Engine = "in-place" /\ cur = template THEN cur' ELSE template
    /\ at' = at + 1
    /\ UNCHANGED <<layers, round, first>>
Again ==
    /\ at > Len(layers) /\ round < Rounds
    /\ first' = IF first = None THEN cur ELSE first
    /\ round' = round + 1 /\ cur' = template /\ at' = 1
    /\ UNCHANGED <<template, layers>>
Next == AddLayer \/ Step \/ Again
Merged ==
    /\ at > Len(layers) /\ round = 1 => Eq(cur, Layers(template, layers, E0, "merges"))
    /\ at > Len(layers) /\ first # None => Eq(cur, first)
Pure == [][template' = template]_<<template, layers, cur, at, round, first>>
Emit == ~(at = 1 /\ round = 1 /\ at' = 2) \/ PrintT("T " \o ToJson([base |-> template, layers |-> layers]))
=============================================================================
