---------------------------- MODULE PrepareTrace ----------------------------
(* Recorded preparations (C20).                                              *)
(* [kind, doc, tries: seq of [how, out, message: BOOLEAN, touched: seq, shape, *)
(*  same: BOOLEAN, locals: BOOLEAN]]                                          *)
(* out: "Prepared" | "PermFail" | "Retry" | "raised" | another outcome        *)
(* touched: what was compiled or looked up; shape: what was prepared is of    *)
(* the kind asked for; how: "direct" | "cache" | "again" (prepared again by   *)
(* the cache, after what it names changed); locals: what was raised is what   *)
(* evaluating the locals of the Function under test raises (a known finding)  *)
EXTENDS Judging, SchemaSem
VARIABLE i

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Try(c, t, bad) ==
    If(t.out = "raised", IF t.locals THEN "raised-by-locals" ELSE "raised-" \o t.how)
    \cup If(t.out \notin {"raised", "Prepared", "PermFail", "Retry"}, "outcome-" \o t.out)
    \cup If(t.out \in {"PermFail", "Retry"} /\ ~t.message, "no-message")
    \cup If(t.out = "Prepared" /\ ~t.shape, "not-a-prepared-resource")
    \cup If(bad /\ t.out \in {"Prepared", "Retry"}, "violation-accepted")
    \cup If(bad /\ t.out = "PermFail" /\ Len(t.touched) > 0, "worked-on-before-validation")
    \cup If(~t.same, "not-what-the-cache-holds")
Verdict(c) == LET bad == Bad(Schemas[c.kind], c.doc) IN UNION {Try(c, c.tries[j], bad) : j \in 1..Len(c.tries)}
JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
=============================================================================
