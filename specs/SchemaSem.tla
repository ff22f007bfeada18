----------------------------- MODULE SchemaSem ------------------------------
(* What a CRD schema demands of a definition's spec (C20).                    *)
(* A schema is the record read from the bundled CRD.  Documents are tagged:   *)
(*   <<"z">> <<"b",bool>> <<"n",numeral,"int"|"whole"|"frac">>                *)
(*   <<"s",text,length>> <<"l",seq>> <<"m",[key -> document]>>                *)
(*   <<"e",..>> : something too deep to matter                               *)
(* Bad: the document certainly violates the schema.  Good: it certainly does  *)
(* not.  Neither: readings of the schema differ (1.0 as an integer, null for  *)
(* a nullable property: JSON Schema has no `nullable`, CRDs do).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Known == {"type", "properties", "required", "items", "enum", "minItems", "maxItems", "minLength", "maxLength",
          "minProperties", "maxProperties", "additionalProperties", "oneOf", "anyOf", "nullable", "expression"}
Hk(s, k) == k \in DOMAIN s
Keys(v) == DOMAIN v[2]
Range(q) == {q[i] : i \in DOMAIN q}
Map(v) == v[1] = "m"
List(v) == v[1] = "l"
Str(v) == v[1] = "s"

OfType(t, v) ==
    CASE t = "object" -> Map(v)
      [] t = "array" -> List(v)
      [] t = "string" -> Str(v)
      [] t = "boolean" -> v[1] = "b"
      [] t = "integer" -> v[1] = "n" /\ v[3] # "frac"
      [] t = "number" -> v[1] = "n"
(* Whether the type is beyond doubt.                                         *)
Surely(t, v) == OfType(t, v) /\ ~(t = "integer" /\ v[3] # "int")
OpenNull(s, v) == v = <<"z">> /\ Hk(s, "nullable") /\ s.nullable

RECURSIVE Bad(_, _), Good(_, _)
OutOfBounds(s, v) ==
    \/ Map(v) /\ Hk(s, "minProperties") /\ Cardinality(Keys(v)) < s.minProperties
    \/ Map(v) /\ Hk(s, "maxProperties") /\ Cardinality(Keys(v)) > s.maxProperties
    \/ Map(v) /\ Hk(s, "required") /\ ~(Range(s.required) \subseteq Keys(v))
    \/ List(v) /\ Hk(s, "minItems") /\ Len(v[2]) < s.minItems
    \/ List(v) /\ Hk(s, "maxItems") /\ Len(v[2]) > s.maxItems
    \/ Str(v) /\ Hk(s, "minLength") /\ v[3] < s.minLength
    \/ Str(v) /\ Hk(s, "maxLength") /\ v[3] > s.maxLength
    \/ Hk(s, "enum") /\ ~(Str(v) /\ v[2] \in Range(s.enum))
Declared(s) == IF Hk(s, "properties") THEN DOMAIN s.properties ELSE {}
Surplus(s, v) == Hk(s, "additionalProperties") /\ ~s.additionalProperties /\ ~(Keys(v) \subseteq Declared(s))
Bad(s, v) ==
    /\ ~OpenNull(s, v)
    /\ \/ Hk(s, "type") /\ ~OfType(s.type, v)
       \/ OutOfBounds(s, v)
       \/ Map(v) /\ (Surplus(s, v) \/ \E k \in Declared(s) \cap Keys(v) : Bad(s.properties[k], v[2][k]))
       \/ List(v) /\ Hk(s, "items") /\ \E i \in 1..Len(v[2]) : Bad(s.items, v[2][i])
       \/ Hk(s, "anyOf") /\ \A i \in 1..Len(s.anyOf) : Bad(s.anyOf[i], v)
       \/ Hk(s, "oneOf") /\ \/ \A i \in 1..Len(s.oneOf) : Bad(s.oneOf[i], v)
                            \/ \E i, j \in 1..Len(s.oneOf) : i # j /\ Good(s.oneOf[i], v) /\ Good(s.oneOf[j], v)
Good(s, v) ==
    /\ Hk(s, "type") => Surely(s.type, v)
    /\ ~OutOfBounds(s, v)
    /\ Map(v) => ~Surplus(s, v) /\ \A k \in Declared(s) \cap Keys(v) : Good(s.properties[k], v[2][k])
    /\ List(v) /\ Hk(s, "items") => \A i \in 1..Len(v[2]) : Good(s.items, v[2][i])
    /\ Hk(s, "anyOf") => \E i \in 1..Len(s.anyOf) : Good(s.anyOf[i], v)
    /\ Hk(s, "oneOf") => \E i \in 1..Len(s.oneOf) : /\ Good(s.oneOf[i], v)
                                                    /\ \A j \in 1..Len(s.oneOf) : j # i => Bad(s.oneOf[j], v)

RECURSIVE Understood(_)
Understood(s) ==
    /\ DOMAIN s \subseteq Known
    /\ Hk(s, "properties") => \A k \in DOMAIN s.properties : Understood(s.properties[k])
    /\ Hk(s, "items") => Understood(s.items)
    /\ Hk(s, "oneOf") => \A i \in 1..Len(s.oneOf) : Understood(s.oneOf[i])
    /\ Hk(s, "anyOf") => \A i \in 1..Len(s.anyOf) : Understood(s.anyOf[i])

-----------------------------------------------------------------------------
(* Documents a schema admits.  Of alternatives, number b is taken.            *)
Branches(s) == IF Hk(s, "oneOf") THEN s.oneOf ELSE IF Hk(s, "anyOf") THEN s.anyOf ELSE <<>>
Taken(s, b) == LET q == Branches(s) IN IF Len(q) = 0 THEN {} ELSE Range(q[(b % Len(q)) + 1].required)
Others(s, b) == UNION {Range(Branches(s)[i].required) : i \in 1..Len(Branches(s))} \ Taken(s, b)
Needed(s, b) == Taken(s, b) \cup (IF Hk(s, "required") THEN Range(s.required) ELSE {})
Text(s) == <<"s", s, Len(s)>>
RECURSIVE Full(_, _), Least(_, _)
Of(s, b, keys, sub(_, _)) ==
    <<"m", [k \in keys |-> IF k \in Declared(s) THEN sub(s.properties[k], b) ELSE <<"m", [x \in {} |-> 0]>>]>>
Leaf(s, b) ==
    CASE s.type = "string" ->
            IF Hk(s, "enum") THEN Text(s.enum[(b % Len(s.enum)) + 1])
            ELSE IF Hk(s, "expression") THEN Text("=inputs.value") ELSE Text("abc")
      [] s.type = "integer" -> <<"n", "5", "int">>
      [] s.type = "boolean" -> <<"b", b % 2 = 0>>
Payload == <<"m", [apiVersion |-> Text("v1"), kind |-> Text("ConfigMap"), data |-> <<"m", [k |-> Text("=inputs.value")]>>,
                   list |-> <<"l", <<<<"n", "1", "int">>, Text("x"), <<"z">>>>>>]>>
Full(s, b) ==
    CASE s.type = "object" ->
            IF Declared(s) # {} THEN Of(s, b, (Declared(s) \ Others(s, b)) \cup Taken(s, b), Full)
            ELSE IF Hk(s, "additionalProperties") THEN <<"m", [k \in {} |-> 0]>>
            ELSE Payload
      [] s.type = "array" -> <<"l", <<Full(s.items, b)>>>>
      [] OTHER -> Leaf(s, b)
Least(s, b) ==
    CASE s.type = "object" ->
            IF Declared(s) # {} THEN Of(s, b, Needed(s, b), Least) ELSE <<"m", [k \in {} |-> 0]>>
      [] s.type = "array" ->
            IF Hk(s, "minItems") THEN <<"l", [i \in 1..s.minItems |-> Least(s.items, b)]>> ELSE <<"l", <<>>>>
      [] OTHER -> Leaf(s, b)
=============================================================================
