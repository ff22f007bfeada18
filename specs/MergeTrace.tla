----------------------------- MODULE MergeTrace -----------------------------
(* Recorded evaluations (C12).                                                *)
(* [k: "vf" | "rf", base, layers, create, ident, locals, inputs: seq,         *)
(*  runs: seq of [n: which inputs, as: "value" | "create" | "patch",          *)
(*                out: value, none when nothing was sent],                    *)
(*  snaps: seq of [what, before, after]]                                      *)
EXTENDS Judging, MergeSem
VARIABLE i

Env(c, n) ==
    LET e == [inputs |-> c.inputs[n], locals |-> EmptyMap, resource |-> EmptyMap]
    IN [e EXCEPT !.locals = Val(c.locals, e)]
Expected(c, r, computed) ==
    LET env == Env(c, r.n) IN
    IF c.k = "vf"
    THEN LET b == IF c.base = None THEN EmptyMap ELSE c.base
             e == [inputs |-> c.inputs[r.n], locals |-> EmptyMap, resource |-> b]
         IN Over(b, c.layers[1].doc, [e EXCEPT !.locals = Val(c.layers[1].locs, e)], computed)
    ELSE LET t0 == DeepMerge(Val(c.base, env), c.ident)
             t1 == DeepMerge(Layers(t0, c.layers, env, computed), c.ident)
         IN IF r.as # "create" \/ c.create = None THEN t1
            ELSE DeepMerge(Over(t1, c.create, [env EXCEPT !.resource = t1], computed), c.ident)
RunOk(c, computed) == \A j \in 1..Len(c.runs) : Eq(c.runs[j].out, Expected(c, c.runs[j], computed))
Verdict(c) ==
    If(~RunOk(c, "merges") /\ ~RunOk(c, "replaces"), "not-the-merge")
    \cup If(\E a, b \in 1..Len(c.runs) :
              c.runs[a].as = c.runs[b].as /\ Eq(c.inputs[c.runs[a].n], c.inputs[c.runs[b].n])
              /\ ~Eq(c.runs[a].out, c.runs[b].out), "equal-inputs-different-result")
    \cup {"modified-" \o c.snaps[j].what : j \in {x \in 1..Len(c.snaps) : c.snaps[x].before # c.snaps[x].after}}
JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
=============================================================================
