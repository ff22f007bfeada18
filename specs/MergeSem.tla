------------------------------ MODULE MergeSem ------------------------------
(* What layered documents stand for (C12).  Documents are KValue values in    *)
(* which an expression may stand for a value:                                 *)
(*   <<"in", k>> inputs.k   <<"loc", k>> locals.k   <<"res", path>> resource  *)
(*   <<"cat", d, s>> text   <<"ov", d, d>> overlay()  <<"mapx", [k -> d]>>    *)
(* env: [inputs, locals, resource].                                           *)
EXTENDS KValue

RECURSIVE Follow(_, _)
Follow(v, path) == IF Len(path) = 0 THEN v ELSE Follow(Get(v, path[1]), Tail(path))

RECURSIVE Val(_, _)
Val(d, env) ==
    CASE d[1] = "in" -> Get(env.inputs, d[2])
      [] d[1] = "loc" -> Get(env.locals, d[2])
      [] d[1] = "res" -> Follow(env.resource, d[2])
      [] d[1] = "cat" -> <<"s", Val(d[2], env)[2] \o d[3]>>
      [] d[1] = "ov" -> DeepMerge(Val(d[2], env), Val(d[3], env))
      [] d[1] \in {"m", "mapx"} -> <<"m", [k \in DOMAIN d[2] |-> Val(d[2][k], env)]>>
      [] d[1] = "l" -> <<"l", [j \in 1..Len(d[2]) |-> Val(d[2][j], env)]>>
      [] OTHER -> d

(* Maps merge key by key, every other value replaces.  Whether a map computed *)
(* by one expression merges too is not said: `computed` chooses.              *)
RECURSIVE Over(_, _, _, _)
Over(base, d, env, computed) ==
    IF d[1] = "m" /\ DOMAIN d[2] # {}
    THEN LET b == IF IsMap(base) THEN base[2] ELSE EmptyFn IN
         <<"m", [k \in DOMAIN b \cup DOMAIN d[2] |->
                    IF k \notin DOMAIN d[2] THEN b[k]
                    ELSE Over(IF k \in DOMAIN b THEN b[k] ELSE None, d[2][k], env, computed)]>>
    ELSE IF d[1] \in {"m", "l", "s", "n", "b", "z"} THEN Val(d, env)
    ELSE LET v == Val(d, env) IN
         IF computed = "merges" /\ IsMap(v) /\ DOMAIN v[2] # {} THEN DeepMerge(base, v) ELSE v

(* A layer is written in place, or returned by a function with inputs and     *)
(* locals of its own.                                                         *)
Layer(cur, l, env, computed) ==
    IF ~l.fn THEN Over(cur, l.doc, [env EXCEPT !.resource = cur], computed)
    ELSE LET ins == Val(l.ins, env)
             inner == [inputs |-> ins, locals |-> EmptyMap, resource |-> cur]
         IN Over(cur, l.doc, [inner EXCEPT !.locals = Val(l.locs, inner)], computed)
RECURSIVE Layers(_, _, _, _)
Layers(cur, ls, env, computed) ==
    IF Len(ls) = 0 THEN cur
    ELSE Layers(IF ls[1].skip[1] = "b" /\ ls[1].skip[2] THEN cur
                ELSE IF ls[1].skip[1] = "in" /\ Get(env.inputs, ls[1].skip[2])[2] THEN cur
                ELSE Layer(cur, ls[1], env, computed), Tail(ls), env, computed)
=============================================================================
