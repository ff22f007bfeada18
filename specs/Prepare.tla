------------------------------ MODULE Prepare -------------------------------
(* Preparing a definition (C20): validate, compile each expression, analyse   *)
(* it, look up what is named, done.  The documents are the ones the bundled   *)
(* schemas admit, and every document one deviation away from them.            *)
EXTENDS SchemaSem, Json, IOUtils
CONSTANTS Engine, MaxBranch, Kinds
VARIABLES kind, doc, stage, out, touched, todo

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
ASSUME \A k \in DOMAIN Schemas : Understood(Schemas[k])

-----------------------------------------------------------------------------
Num(n) == <<"n", ToString(n), "int">>
Junk == {<<"z">>, <<"b", TRUE>>, Num(3), <<"n", "1.5", "frac">>, <<"n", "2", "whole">>,
         <<"n", "123456789012345678901234567890", "int">>, Text(""), Text("x"), Text("=("), Text("=1 +"),
         Text("=x[0].y"), Text("=(x).y[z]"), <<"s", "~d800;", 1>>, <<"s", "~long;", 60>>,
         <<"l", <<>>>>, <<"l", <<<<"z">>>>>>, <<"l", [i \in 1..25 |-> Num(i)]>>,
         <<"m", [k \in {} |-> 0]>>, <<"m", [x |-> Num(1)]>>, <<"m", [k \in {"k" \o ToString(i) : i \in 1..12} |-> <<"z">>]>>}
RECURSIVE Deviations(_, _)
At(v, k, x) == <<"m", [y \in Keys(v) \cup {k} |-> IF y = k THEN x ELSE v[2][y]]>>
Drop(v, k) == <<"m", [y \in Keys(v) \ {k} |-> v[2][y]]>>
(* Every document one step away from v, which s admits.                      *)
Deviations(s, v) ==
    Junk
    \cup (IF Map(v)
          THEN {Drop(v, k) : k \in Keys(v)} \cup {At(v, "surplus", x) : x \in {<<"z">>, Num(1)}}
               \cup {At(v, k, Full(s.properties[k], 0)) : k \in Declared(s) \ Keys(v)}
               \cup UNION {{At(v, k, x) : x \in Deviations(s.properties[k], v[2][k])} : k \in Declared(s) \cap Keys(v)}
          ELSE {})
    \cup (IF List(v)
          THEN {<<"l", [i \in 1..n |-> v[2][1]]>> : n \in IF Len(v[2]) = 0 THEN {} ELSE {2, 10, 11, 20, 21}}
               \cup (IF Len(v[2]) = 0 THEN {} ELSE {<<"l", <<x>>>> : x \in Deviations(s.items, v[2][1])})
          ELSE {})
    \cup (IF Str(v) THEN {<<"s", "~n", n>> : n \in {1, 2, 3, 40, 41, 45, 46, 60, 61}} ELSE {})
Admitted(k) == {Full(Schemas[k], b) : b \in 0..MaxBranch} \cup {Least(Schemas[k], b) : b \in 0..MaxBranch}
Docs(k) == Admitted(k) \cup UNION {Deviations(Schemas[k], v) : v \in Admitted(k)}

-----------------------------------------------------------------------------
(* The expressions of a document, and the names it asks the cache for.        *)
RECURSIVE Leaves(_)
Leaves(v) ==
    CASE Map(v) -> UNION {Leaves(v[2][k]) : k \in Keys(v)}
      [] List(v) -> UNION {Leaves(v[2][i]) : i \in 1..Len(v[2])}
      [] OTHER -> {v}
Expressions(v) == {x \in Leaves(v) : Str(x) /\ Len(x[2]) > 0 /\ SubSeq(x[2], 1, 1) = "="}
Parses(x) == x[2] \notin {"=(", "=1 +"}
Plain(x) == x[2] = "=inputs.value"

(* How an engine sees the schema.                                            *)
RECURSIVE Loose(_, _)
Loose(s, v) ==  \* alternatives need not exclude one another
    \/ Hk(s, "type") /\ ~OfType(s.type, v)
    \/ OutOfBounds(s, v)
    \/ Map(v) /\ (Surplus(s, v) \/ \E k \in Declared(s) \cap Keys(v) : Loose(s.properties[k], v[2][k]))
    \/ List(v) /\ Hk(s, "items") /\ \E i \in 1..Len(v[2]) : Loose(s.items, v[2][i])
Shallow(s, v) ==
    \/ ~OfType(s.type, v) \/ OutOfBounds(s, v)
    \/ Map(v) /\ \E k \in Declared(s) \cap Keys(v) : ~OfType(s.properties[k].type, v[2][k])
Rejects(s, v) ==
    CASE Engine = "loose" -> Loose(s, v)
      [] Engine = "shallow" -> Shallow(s, v)
      [] Engine = "blind" -> FALSE
      [] OTHER -> ~Good(s, v)

Done(c, m) == stage' = "done" /\ out' = [c |-> c, m |-> m] /\ UNCHANGED <<kind, doc, touched, todo>>
Init == /\ kind \in DOMAIN Schemas \cap Kinds
        /\ doc \in Docs(kind)
        /\ stage = (IF Engine = "late" THEN "compile" ELSE "validate")
        /\ out = [c |-> "none", m |-> ""] /\ touched = {} /\ todo = Expressions(doc)
Validate ==
    /\ stage = "validate"
    /\ IF Rejects(Schemas[kind], doc) THEN Done("PermFail", IF Engine = "silent" THEN "" ELSE "schema")
       ELSE /\ stage' = (IF Engine = "late" THEN "lookup" ELSE "compile")
            /\ UNCHANGED <<kind, doc, out, touched, todo>>
(* A field which is not of the shape it is used as.                          *)
Compile ==
    /\ stage = "compile"
    /\ IF todo = {} THEN stage' = (IF Engine = "late" THEN "validate" ELSE "lookup")
                         /\ UNCHANGED <<kind, doc, out, touched, todo>>
       ELSE LET x == CHOOSE y \in todo : TRUE IN
            IF ~Parses(x) THEN IF Engine = "parse-raises" THEN Done("raised", "") ELSE Done("PermFail", "parse error")
            ELSE IF Engine = "odd-raises" /\ ~Plain(x) THEN Done("raised", "")
            ELSE /\ touched' = touched \cup {"compile"} /\ todo' = todo \ {x}
                 /\ UNCHANGED <<kind, doc, stage, out>>
LookUp ==
    /\ stage = "lookup"
    /\ \/ Done("Retry", "not cached")
       \/ Done("Prepared", "")
Next == Validate \/ Compile \/ LookUp

-----------------------------------------------------------------------------
Total == stage = "done" => out.c \in {"Prepared", "PermFail", "Retry"}
Says == stage = "done" /\ out.c # "Prepared" => out.m # ""
Rejected == stage = "done" /\ Bad(Schemas[kind], doc) => out.c = "PermFail"
First == Bad(Schemas[kind], doc) => touched = {}
Going == stage = "done" \/ ENABLED Next
Sane == /\ doc \in Admitted(kind) => Good(Schemas[kind], doc)
        /\ ~(Good(Schemas[kind], doc) /\ Bad(Schemas[kind], doc))
Emit == IF stage = "validate" THEN PrintT("T " \o ToJson([kind |-> kind, doc |-> doc])) ELSE TRUE
=============================================================================
