----------------------------- MODULE CelShapes ------------------------------
(* Every syntactic shape of a CEL expression to a bounded depth (C20): the    *)
(* grammar's productions put into one another, and the walk which finds the   *)
(* static path of a member access in them.  The walk must end, with a path    *)
(* or with none, whatever it meets.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDepth, Engine, Leaves
VARIABLES t, depth, at, path, walk

(* A node: <<production, level, text, children>>.                             *)
(* Levels: 1 conditional, 2 or, 3 and, 4 relation, 5 sum, 6 product, 7 unary, *)
(* 8 member, 9 primary.                                                       *)
Leaf(p, s) == <<p, 9, s, <<>>>>
AllLeaves == {
    Leaf("ident", "inputs"), Leaf("dot_ident", ".inputs"), Leaf("literal", "1"), Leaf("literal", "-0x1F"), Leaf("literal", "2u"),
    Leaf("literal", "1.5e3"), Leaf("literal", "''"), Leaf("literal", "'a.b'"), Leaf("literal", "b'x'"),
    Leaf("literal", "r'x'"), Leaf("literal", "'''m'''"), Leaf("literal", "true"), Leaf("literal", "null"),
    Leaf("list_lit", "[]"), Leaf("map_lit", "{}"), Leaf("ident_arg", "now()"), Leaf("dot_ident_arg", ".now()")}
FewLeaves == {Leaf("ident", "inputs"), Leaf("literal", "1"), Leaf("literal", "'k'"), Leaf("list_lit", "[]")}

(* A production: <<name, level, text pieces, levels of its parts>>.           *)
P(n, l, pieces, parts) == <<n, l, pieces, parts>>
Bin(l, o) == P("binary", l, <<"", " " \o o \o " ", "">>, <<l, l + 1>>)
Productions == {
    P("conditional", 1, <<"", " ? ", " : ", "">>, <<2, 2, 1>>),
    Bin(2, "||"), Bin(3, "&&"), Bin(4, "<"), Bin(4, "<="), Bin(4, ">"), Bin(4, ">="), Bin(4, "=="), Bin(4, "!="),
    Bin(4, "in"), Bin(5, "+"), Bin(5, "-"), Bin(6, "*"), Bin(6, "/"), Bin(6, "%"),
    P("unary", 7, <<"!", "">>, <<7>>), P("unary", 7, <<"- ", "">>, <<7>>),
    P("member_dot", 8, <<"", ".field">>, <<8>>),
    P("member_dot_arg", 8, <<"", ".call()">>, <<8>>), P("member_dot_arg", 8, <<"", ".call(", ")">>, <<8, 1>>),
    P("member_dot_arg", 8, <<"", ".call(", ", ", ")">>, <<8, 1, 1>>),
    P("member_dot_arg", 8, <<"", ".map(x, ", ")">>, <<8, 1>>), P("member_dot_arg", 8, <<"", ".filter(x, ", ")">>, <<8, 1>>),
    P("member_dot_arg", 8, <<"", ".all(x, ", ")">>, <<8, 1>>), P("member_dot_arg", 8, <<"", ".exists(x, ", ")">>, <<8, 1>>),
    P("member_dot_arg", 8, <<"", ".exists_one(x, ", ")">>, <<8, 1>>),
    P("member_dot_arg", 8, <<"", ".map(", ", x.y)">>, <<8, 1>>),
    P("member_dot_arg", 8, <<"", ".reduce(r, i, ", ", ", ")">>, <<8, 1, 1>>),
    P("member_index", 8, <<"", "[", "]">>, <<8, 1>>),
    P("member_object", 8, <<"", "{}">>, <<8>>), P("member_object", 8, <<"", "{a: ", ", b: ", "}">>, <<8, 1, 1>>),
    P("dot_ident_arg", 9, <<".f(", ")">>, <<1>>), P("ident_arg", 9, <<"f(", ")">>, <<1>>),
    P("ident_arg", 9, <<"has(", ")">>, <<1>>), P("ident_arg", 9, <<"dyn(", ")">>, <<1>>),
    P("ident_arg", 9, <<"size(", ", ", ")">>, <<1, 1>>),
    P("paren_expr", 9, <<"(", ")">>, <<1>>), P("list_lit", 9, <<"[", "]">>, <<1>>),
    P("list_lit", 9, <<"[", ", ", "]">>, <<1, 1>>), P("map_lit", 9, <<"{", ": ", "}">>, <<1, 1>>),
    P("map_lit", 9, <<"{'a': 1, ", ": ", "}">>, <<1, 1>>)}

Shown(e, level) == IF e[2] < level THEN "(" \o e[3] \o ")" ELSE e[3]
(* What is parenthesised is another production.                              *)
Kept(e, level) == IF e[2] < level THEN <<"paren_expr", 9, "(" \o e[3] \o ")", <<e>>>> ELSE e
RECURSIVE Written(_, _, _)
Written(pieces, args, n) == IF n > Len(args) THEN pieces[n] ELSE pieces[n] \o args[n][3] \o Written(pieces, args, n + 1)
Other == Leaf("ident", "y")
Make(p, j, e) ==
    LET args == [i \in 1..Len(p[4]) |-> IF i = j THEN Kept(e, p[4][i]) ELSE Other]
    IN <<p[1], p[2], Written(p[3], args, 1), args>>
Grown(e) == UNION {{Make(p, j, e) : j \in 1..Len(p[4])} : p \in Productions}

-----------------------------------------------------------------------------
(* The walk: from a member access towards its root, one step at a time.       *)
Stepped == {"member_dot", "member_dot_arg", "member_index"}
Rooted == {"ident", "dot_ident", "literal"}
Understands(n) ==
    CASE Engine = "koreo" -> TRUE
      [] Engine = "plain-receivers" -> n \in Stepped \cup Rooted
      [] Engine = "no-calls" -> n # "ident_arg" /\ n # "dot_ident_arg"
Init == /\ t \in (IF Leaves = "all" THEN AllLeaves ELSE FewLeaves)
        /\ depth = 0 /\ at = <<>> /\ path = 0 /\ walk = "no"
Grow == /\ walk = "no" /\ depth < MaxDepth
        /\ t' \in Grown(t)
        /\ depth' = depth + 1
        /\ UNCHANGED <<at, path, walk>>
Begin == /\ walk = "no" /\ t[1] \in {"member_dot", "member_index"}
         /\ walk' = "on" /\ at' = t /\ path' = 0
         /\ UNCHANGED <<t, depth>>
Step == /\ walk = "on"
        /\ IF ~Understands(at[1]) THEN walk' = "stuck" /\ UNCHANGED <<at, path>>
           ELSE IF at[1] \in Stepped THEN at' = at[4][1] /\ path' = path + 1 /\ UNCHANGED walk
           ELSE IF at[1] = "paren_expr" THEN at' = at[4][1] /\ UNCHANGED <<path, walk>>
           ELSE IF at[1] \in Rooted THEN walk' = "found" /\ path' = path + 1 /\ UNCHANGED at
           ELSE walk' = "nothing" /\ UNCHANGED <<at, path>>
        /\ UNCHANGED <<t, depth>>
Next == Grow \/ Begin \/ Step
Ends == walk # "stuck" /\ (walk = "on" => ENABLED Step)
Emit == IF depth' > depth THEN PrintT("T " \o ToJson(t'[3])) ELSE TRUE
=============================================================================
