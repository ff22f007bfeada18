----------------------------- MODULE StaticRefs -----------------------------
(* The analysis: walk every member access, compute its dotted path, and keep  *)
(* what follows "steps".  Trees grow by wrapping a reference (or something    *)
(* which only looks like one) into every syntactic context, again and again;  *)
(* what the analysis finds is what is named.                                  *)
EXTENDS StaticRefsSem, Json
CONSTANTS MaxDepth, Walk
VARIABLES t, depth

S == <<"id", "steps">>
In == <<"dot", <<"id", "inputs">>, "k">>
One == <<"lit", "1">>
True == <<"lit", "true">>
Seeds == {
    <<"dot", S, "aaa">>, <<"idx", S, <<"str", "aaa">>>>, <<"dot", <<"par", S>>, "aaa">>,
    <<"idx", <<"par", S>>, <<"par", <<"str", "aaa">>>>>>, <<"dot", <<"did", "steps">>, "aaa">>,
    <<"dot", <<"idx", S, <<"str", "aaa">>>>, "sub">>, <<"idx", <<"dot", S, "aaa">>, <<"str", "sub">>>>,
    <<"idx", <<"dot", S, "aaa">>, One>>, <<"idx", S, <<"dot", S, "bbb">>>>,
    <<"idx", <<"dot", S, "aaa">>, <<"dot", <<"dot", S, "bbb">>, "sub">>>>,
    <<"dot", <<"par", <<"dot", S, "aaa">>>>, "sub">>,
    \* not references
    <<"dot", <<"dot", <<"id", "inputs">>, "steps">>, "aaa">>, <<"str", "steps.aaa">>,
    <<"idx", S, In>>, <<"idx", S, <<"bin", "+", <<"str", "a">>, <<"str", "aa">>>>>>}

Wrap(e) == {
    <<"par", e>>, <<"dot", <<"par", e>>, "f">>, <<"dot", e, "f">>, <<"idx", e, <<"str", "f">>>>, <<"idx", In, e>>,
    <<"mcall", e, "startsWith", <<<<"str", "x">>>>>>, <<"mcall", In, "contains", <<e>>>>,
    <<"dot", <<"mcall", e, "getFullYear", <<>>>>, "g">>,
    <<"idx", <<"mcall", In, "contains", <<e>>>>, One>>,
    <<"dot", <<"mcall", <<"dot", S, "ccc">>, "matches", <<e>>>>, "g">>,
    <<"call", "size", <<e>>>>, <<"call", "overlay", <<In, e>>>>, <<"dot", <<"call", "to_ref", <<e>>>>, "name">>,
    <<"bin", "+", e, One>>, <<"bin", "==", One, e>>, <<"bin", "&&", True, e>>, <<"bin", "||", e, True>>,
    <<"bin", "in", One, e>>, <<"bin", "*", One, e>>, <<"bin", "<", e, One>>,
    <<"un", "!", e>>, <<"un", "-", e>>,
    <<"cond", e, One, One>>, <<"cond", True, e, One>>, <<"cond", True, One, e>>,
    <<"list", <<One, e>>>>, <<"idx", <<"list", <<e>>>>, One>>, <<"map", <<<<<<"str", "k">>, e>>>>>>,
    <<"map", <<<<e, One>>>>>>, <<"dot", <<"map", <<<<<<"str", "k">>, e>>>>>>, "k">>,
    <<"macro", e, "map", "x", <<"id", "x">>>>, <<"macro", In, "filter", "x", e>>,
    <<"macro", In, "map", "x", <<"dot", <<"id", "x">>, "y">>>>,
    <<"macro", <<"list", <<e>>>>, "all", "x", <<"dot", <<"id", "x">>, "y">>>>,
    <<"macro", In, "exists", "x", <<"bin", "==", <<"id", "x">>, e>>>>,
    <<"macro", <<"macro", e, "filter", "x", True>>, "map", "y", e>>,
    <<"has", <<"dot", e, "h">>>>, <<"has", <<"dot", <<"idx", e, <<"str", "q">>>>, "h">>>>,
    <<"idx", <<"idx", e, In>>, <<"str", "z">>>>}

-----------------------------------------------------------------------------
(* The analysis.  A path is a sequence of names, <<>> when it is not static.  *)
RECURSIVE Path(_)
Path(e) ==
    LET b == Bare(e) IN
    CASE b[1] \in {"id", "did"} -> <<b[2]>>
      [] b[1] = "dot" -> LET p == Path(b[2]) IN IF p = <<>> THEN <<>> ELSE Append(p, b[3])
      [] b[1] = "idx" ->
            LET p == Path(b[2])  k == Bare(b[3])
            IN IF p = <<>> \/ k[1] \notin {"str", "lit"} THEN <<>> ELSE Append(p, k[2])
      [] b[1] = "mcall" -> LET p == Path(b[2]) IN IF p = <<>> THEN <<>> ELSE Append(p, b[3])
      [] OTHER -> <<>>
Label(p) == IF Len(p) > 1 /\ p[1] = "steps" THEN {p[2]} ELSE {}
RECURSIVE Found(_)
Found(e) ==
    (IF e[1] \in {"dot", "idx"} THEN Label(Path(e)) ELSE {})
    \cup UNION {Found(Kids(e)[j]) : j \in
            CASE Walk = "all" -> 1..Len(Kids(e))
              [] Walk = "no-index-expression" -> IF e[1] = "idx" THEN {1} ELSE 1..Len(Kids(e))
              [] Walk = "outermost" -> IF e[1] \in {"dot", "idx"} /\ Label(Path(e)) # {} THEN {} ELSE 1..Len(Kids(e))
              [] Walk = "no-macro-body" -> IF e[1] = "macro" THEN {1} ELSE 1..Len(Kids(e))
              [] Walk = "no-call-receiver" -> IF e[1] = "mcall" THEN 2..Len(Kids(e)) ELSE 1..Len(Kids(e))}

Init == t \in Seeds /\ depth = 0
Next == /\ depth < MaxDepth
        /\ t' \in Wrap(t)
        /\ depth' = depth + 1
Complete == Found(t) = Named(t)
Emit == PrintT("T " \o ToJson(t'))
=============================================================================
