------------------------------ MODULE Judging ------------------------------
(* Common support for trace validation: recorded cases are read from the    *)
(* ndjson file named by the environment variable TRACE.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

(* Report a verdict: a set of names of failing clauses.                     *)
Report(i, v) ==
    IF v = {} THEN TRUE
    ELSE PrintT("VIOL " \o ToJson([i |-> i, clauses |-> v]))

Finish(i) == IF i = Len(Cases) THEN PrintT("DONE " \o ToJson(i)) ELSE TRUE

Has(r, k) == k \in DOMAIN r
If(b, name) == IF b THEN {name} ELSE {}
=============================================================================
