------------------------------- MODULE FTest --------------------------------
(* The FunctionTest runner (C18, C19): cases run in order, what a passing     *)
(* non-variant case leaves is what the next one starts from.                  *)
EXTENDS FTestSem, Json
CONSTANTS Engine, MaxCases, Scope
VARIABLES f, base, cases, st, results, halted
vars == <<f, base, cases, st, results, halted>>

R == [ins |-> "deep", patch |-> "top"]
S(x) == <<"s", x>>
N(x) == <<"n", x>>
M(x) == <<"m", x>>
B(x) == <<"b", x>>
Ident == M([apiVersion |-> S("apps.example.io/v1"), kind |-> S("Thing"),
            metadata |-> M([name |-> S("thing"), namespace |-> S("ns1")])])
Live(v, extra) == M([spec |-> M([keep |-> N("1"), seen |-> M([mode |-> S("go"), v |-> N(v)])])] @@ Ident[2] @@ extra)
Fns == {[kind |-> k, ident |-> Ident, static |-> M([keep |-> N("1")]), update |-> u, create |-> TRUE,
         ro |-> FALSE, del |-> d, post |-> p, cd |-> 3, ud |-> 4] :
            k \in {"rf"}, u \in {"patch", "recreate"}, d \in {FALSE}, p \in BOOLEAN}
       \cup (IF Scope = "small" THEN {} ELSE
             {[kind |-> "vf", ident |-> Ident, static |-> M([keep |-> N("1")]), update |-> "patch", create |-> TRUE,
               ro |-> FALSE, del |-> FALSE, post |-> FALSE, cd |-> 3, ud |-> 4],
              [kind |-> "rf", ident |-> Ident, static |-> M([keep |-> N("1")]), update |-> "never", create |-> FALSE,
               ro |-> FALSE, del |-> TRUE, post |-> FALSE, cd |-> 3, ud |-> 4]})
Bases == {[ins |-> M([mode |-> S("go"), v |-> N("0")]), res |-> r] :
             r \in {None, Live("1", [status |-> M([ready |-> B(FALSE)])])}}
Setups == {[ov |-> o, cur |-> x[1], lay |-> x[2], bad |-> FALSE] :
             o \in {None, M([v |-> N("1")])} \cup (IF Scope = "small" THEN {} ELSE {M([mode |-> S("skip")])}),
             x \in {<<None, None>>, <<None, M([status |-> M([ready |-> B(TRUE)])])>>}
                   \cup (IF Scope = "small" THEN {} ELSE {<<Live("0", EmptyFn), None>>})}
(* an assertion which is right, or wrong, of a behaviour                      *)
As(k, v, b) == [k |-> k, v |-> v, c |-> b.c, m |-> "", lm |-> "", d |-> b.d]
Right(b) == {As("outcome", None, b), As("delete", B(b.deleted), b)}
            \cup (IF b.c = "Ok" THEN {As("return", b.v, b)} ELSE {})
            \cup (IF b.sent # None THEN {As("resource", b.sent, b)} ELSE {})
Wrong(b) == IF b.sent # None THEN {As("resource", With(b.sent, "extra", Null), b)}
            ELSE IF b.c = "Ok" THEN {As("return", With(b.v, "extra", Null), b)}
            ELSE {As("outcome", None, [b EXCEPT !.c = "Ok"])}
Chosen(b, right) ==
    IF right THEN IF b.sent # None THEN As("resource", b.sent, b)
                  ELSE IF b.c = "Ok" THEN As("return", b.v, b)
                  ELSE IF b.deleted THEN As("delete", B(TRUE), b) ELSE As("outcome", None, b)
    ELSE CHOOSE a \in Wrong(b) : TRUE

-----------------------------------------------------------------------------
(* One case, as the runner goes about it.                                     *)
Result(c, s, w) ==
    IF c.skip THEN "skip"
    ELSE IF s.setup # "ok" THEN s.setup
    ELSE IF Holds(c.as, w.b) = "yes" THEN "pass" ELSE "fail"
Step(state, c, fn) ==
    LET s == Start(state, c, R)
        w == Act(fn, s.ins, s.res, R)
        res == Result(c, s, w)
        on == [ins |-> s.ins, res |-> w.after]
    IN [r |-> res,
        out |-> IF res \in {"pass", "fail"} THEN w.b ELSE None,
        halt |-> res = "abort" \/ (res \in {"fail", "fails"} /\ ~c.variant),
        st |-> CASE Engine = "skip-sets-up" /\ c.skip -> [ins |-> s.ins, res |-> s.res]
                 [] Engine = "variant-inputs-stay" /\ c.variant -> [ins |-> s.ins, res |-> state.res]
                 [] Engine = "variant-resource-stays" /\ c.variant -> [ins |-> state.ins, res |-> w.after]
                 [] Engine = "variant-setup-stays" /\ c.variant -> [ins |-> state.ins, res |-> s.res]
                 [] c.skip \/ c.variant -> state
                 [] Engine = "setup-only" -> [ins |-> s.ins, res |-> s.res]
                 [] Engine = "inputs-revert" -> [ins |-> state.ins, res |-> w.after]
                 [] OTHER -> on]
RECURSIVE Run(_, _, _)
Run(state, cs, fn) ==
    IF Len(cs) = 0 THEN <<>>
    ELSE LET x == Step(state, cs[1], fn) IN
         <<[r |-> x.r, out |-> x.out]>> \o (IF x.halt THEN <<>> ELSE Run(x.st, Tail(cs), fn))

Init == /\ f \in Fns /\ base \in Bases
        /\ cases = <<>> /\ st = base /\ results = <<>> /\ halted = FALSE
Case(setup, variant, skip, right) ==
    LET s == Start(st, setup, R)
        b == Act(f, s.ins, s.res, R).b
    IN [ov |-> setup.ov, cur |-> setup.cur, lay |-> setup.lay, bad |-> setup.bad, variant |-> variant, skip |-> skip,
        as |-> Chosen(b, right)]
Next ==
    /\ ~halted /\ Len(cases) < MaxCases
    /\ \E setup \in Setups, flags \in {<<FALSE, FALSE, TRUE>>, <<TRUE, FALSE, TRUE>>, <<TRUE, FALSE, FALSE>>,
                                       <<FALSE, TRUE, TRUE>>, <<FALSE, FALSE, FALSE>>} :
          /\ Start(st, setup, R).setup # "abort"
          /\ LET c == Case(setup, flags[1], flags[2], flags[3])
                 x == Step(st, c, f)
             IN /\ cases' = Append(cases, c)
                /\ results' = Append(results, [r |-> x.r, out |-> x.out])
                /\ st' = x.st /\ halted' = x.halt
    /\ UNCHANGED <<f, base>>

Plain(c) == ~c.variant /\ ~c.skip
(* A case's result is a function of the base and the plain cases before it.   *)
Chain ==
    \A n \in 1..Len(results) :
        LET before == SelectSeq(SubSeq(cases, 1, n - 1), Plain)
            alone == Run(base, Append(before, cases[n]), f)
        IN alone[Len(alone)] = results[n]
(* What the next case starts from is what the last plain one left.            *)
RECURSIVE Left(_, _)
Left(s, cs) == IF Len(cs) = 0 THEN s
               ELSE LET x == Start(s, cs[1], R) IN Left([ins |-> x.ins, res |-> Act(f, x.ins, x.res, R).after], Tail(cs))
Carried == ~halted => st = Left(base, SelectSeq(cases, Plain))
(* Only a behaviour's own description holds of it.                            *)
Sound ==
    \A n \in 1..Len(results) : results[n].r \in {"pass", "fail"} =>
        LET b == results[n].out IN
        /\ \A a \in Right(b) : Holds(a, b) = "yes"
        /\ \A a \in Wrong(b) : Holds(a, b) = "no"
Emit == (Len(cases') < MaxCases /\ ~halted') \/
        PrintT("T " \o ToJson([f |-> f, base |-> base, cases |-> cases']))
=============================================================================
