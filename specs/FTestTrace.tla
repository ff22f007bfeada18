----------------------------- MODULE FTestTrace -----------------------------
(* Recorded runs of FunctionTests (C18, C19).                                 *)
(* chain:  [k, f, base, cases, runs: seq of [raised, results], snaps]         *)
(*         result: [pass, c, m, lm, d, v]                                     *)
(* family: [k, cases: seq of [plain, skip, lay], runs: seq of                 *)
(*          [raised, order: seq of case numbers, results]]                    *)
(* claims: [k, b, body, live, claims: seq of [as, pass, raised, ready]]       *)
EXTENDS Judging, FTestSem
VARIABLE i

-----------------------------------------------------------------------------
(* How a recorded run departs from the chain under a reading.                 *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(c, run, n, ins, res, r) ==
    IF n > Len(c.cases) THEN If(Len(run.results) # Len(c.cases), "results-left-over")
    ELSE LET t == c.cases[n]
             s == Start([ins |-> ins, res |-> res], t, r) IN
    IF t.skip THEN IF n > Len(run.results) THEN {"case-without-result"} ELSE Walk(c, run, n + 1, ins, res, r)
    ELSE IF s.setup = "abort" THEN {}
    ELSE IF n > Len(run.results) THEN {"case-without-result"}
    ELSE LET o == run.results[n] IN
    IF s.setup = "fails"
    THEN If(o.pass, "false-pass-setup") \cup (IF t.variant THEN Walk(c, run, n + 1, ins, res, r) ELSE {})
    ELSE LET w == Act(c.f, s.ins, s.res, r)
             b == [w.b EXCEPT !.m = o.m, !.lm = o.lm, !.d = IF w.b.d = -1 THEN o.d ELSE w.b.d]
             h == Holds(t.as, b)
             here == Misjudged(t.as, b, o.pass)
                     \cup If(o.c # b.c \/ (b.c = "Retry" /\ o.d # b.d) \/ (b.c = "Ok" /\ ~Eq(o.v, b.v)),
                             "started-from-something-else")
         IN here \cup
            (IF t.variant THEN Walk(c, run, n + 1, ins, res, r)
             ELSE IF h = "yes" THEN Walk(c, run, n + 1, s.ins, w.after, r)
             ELSE {})
WalkAll(c, r) == UNION {IF c.runs[j].raised THEN {"raised"}
                        ELSE Walk(c, c.runs[j], 1, c.base.ins, c.base.res, r) : j \in 1..Len(c.runs)}
Canon == [ins |-> "deep", patch |-> "top"]
Chained(c) ==
    LET fit == {r \in Readings : WalkAll(c, r) \subseteq KnownClauses}
    IN IF \E r \in fit : WalkAll(c, r) = {} THEN {}
       ELSE WalkAll(c, IF fit = {} THEN Canon ELSE CHOOSE r \in fit : TRUE)
Changed(c) == {"modified-" \o c.snaps[j].what : j \in {x \in 1..Len(c.snaps) : c.snaps[x].before # c.snaps[x].after}}

-----------------------------------------------------------------------------
PlainBefore(c, order, p) == SelectSeq(SubSeq(order, 1, p - 1), LAMBDA n : c.cases[n].plain)
Same(x, y) == x.pass = y.pass /\ x.c = y.c /\ x.m = y.m /\ x.d = y.d /\ Eq(x.v, y.v)
Halted(c, run) ==
    LET last == run.order[Len(run.results)]
        o == run.results[Len(run.results)]
    IN IF Len(run.results) = 0 THEN {"nothing-was-run"}
       ELSE If(Len(run.results) < Len(run.order) /\ ~c.cases[last].lay /\ (o.pass \/ ~c.cases[last].plain),
               "stopped-after-" \o (IF c.cases[last].plain THEN "a-passing-case" ELSE "a-variant-case"))
Family(c) ==
    UNION {IF c.runs[a].raised THEN {"raised"} ELSE Halted(c, c.runs[a]) : a \in 1..Len(c.runs)}
    \cup If(\E a, b \in 1..Len(c.runs) : a <= b /\ ~c.runs[a].raised /\ ~c.runs[b].raised /\
              \E p \in 1..Len(c.runs[a].results), q \in 1..Len(c.runs[b].results) :
                 /\ c.runs[a].order[p] = c.runs[b].order[q]
                 /\ ~c.cases[c.runs[a].order[p]].skip
                 /\ PlainBefore(c, c.runs[a].order, p) = PlainBefore(c, c.runs[b].order, q)
                 /\ ~Same(c.runs[a].results[p], c.runs[b].results[q]),
            "depends-on-variant-or-skipped-cases")

-----------------------------------------------------------------------------
Bearing(c, patch) ==
    IF c.body = None THEN c.b
    ELSE [c.b EXCEPT !.sent = IF c.live = None THEN c.body
                              ELSE IF patch = "top" THEN Top(c.live, c.body) ELSE DeepMerge(c.live, c.body)]
Claim(c, b) ==
    UNION {LET x == c.claims[j] IN
           IF ~x.ready THEN {"valid-test-not-prepared"}
           ELSE IF x.raised THEN Crashes(x.as, b)
           ELSE Misjudged(x.as, b, x.pass)
           : j \in 1..Len(c.claims)}
Claims(c) ==
    LET top == Claim(c, Bearing(c, "top"))
        deep == Claim(c, Bearing(c, "deep"))
    IN IF deep = {} THEN {}
       ELSE IF deep \subseteq KnownClauses /\ ~(top \subseteq KnownClauses) THEN deep
       ELSE top

Verdict(c) ==
    CASE c.k = "chain" -> Chained(c) \cup (IF IOEnv.PROP = "C18" THEN Changed(c) ELSE {})
      [] c.k = "family" -> Family(c) \cup Changed(c)
      [] c.k = "claims" -> Claims(c)
JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
=============================================================================
