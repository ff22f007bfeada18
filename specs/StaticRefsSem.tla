--------------------------- MODULE StaticRefsSem ----------------------------
(* Expression trees, and the steps an expression names statically (C14).      *)
(*   <<"id", n>>  <<"did", n>> (.n)  <<"str", s>>  <<"lit", text>>            *)
(*   <<"dot", e, n>>  <<"idx", e, e>>  <<"mcall", e, n, args>>                *)
(*   <<"call", n, args>>  <<"bin", op, e, e>>  <<"un", op, e>>                *)
(*   <<"cond", e, e, e>>  <<"list", es>>  <<"map", seq of <<e, e>>>>          *)
(*   <<"par", e>>  <<"macro", e, kind, var, e>>  <<"has", e>>                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kids(e) ==
    CASE e[1] \in {"id", "did", "str", "lit"} -> <<>>
      [] e[1] = "dot" -> <<e[2]>>
      [] e[1] = "idx" -> <<e[2], e[3]>>
      [] e[1] = "mcall" -> <<e[2]>> \o e[4]
      [] e[1] = "call" -> e[3]
      [] e[1] = "bin" -> <<e[3], e[4]>>
      [] e[1] = "un" -> <<e[3]>>
      [] e[1] = "cond" -> <<e[2], e[3], e[4]>>
      [] e[1] = "list" -> e[2]
      [] e[1] = "map" -> [k \in 1..(2 * Len(e[2])) |-> e[2][(k + 1) \div 2][1 + ((k + 1) % 2)]]
      [] e[1] = "par" -> <<e[2]>>
      [] e[1] = "macro" -> <<e[2], e[5]>>
      [] e[1] = "has" -> <<e[2]>>

RECURSIVE Bare(_)
Bare(e) == IF e[1] = "par" THEN Bare(e[2]) ELSE e
IsSteps(e) == Bare(e) \in {<<"id", "steps">>, <<"did", "steps">>}

(* The meaning: steps.NAME or steps['NAME'], wherever it stands.              *)
RECURSIVE Named(_)
Named(e) ==
    (CASE e[1] = "dot" /\ IsSteps(e[2]) -> {e[3]}
       [] e[1] = "idx" /\ IsSteps(e[2]) /\ Bare(e[3])[1] = "str" -> {Bare(e[3])[2]}
       [] OTHER -> {})
    \cup UNION {Named(k) : k \in {Kids(e)[j] : j \in 1..Len(Kids(e))}}
NamedIn(es) == UNION {Named(es[j]) : j \in 1..Len(es)}
=============================================================================
