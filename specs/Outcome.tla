------------------------------ MODULE Outcome -------------------------------
(* Outcomes and their aggregation (koreo.result).                           *)
(* An outcome is [c: class, m: message token or "", d: delay, v: value].    *)
EXTENDS OutcomeSem, TLC, Json

(* ---- operational: pairwise combination folded from DepSkip -------------- *)
(* accumulator: [c, ms: set of messages, d, vs: sequence of values]          *)
Lift(o) == [c |-> o.c, ms |-> {o.m} \ {""}, d |-> o.d,
            vs |-> IF o.c = "Ok" THEN <<o.v>> ELSE <<>>]
Pair(a, b) ==
    IF Severity(a.c) > Severity(b.c) THEN a
    ELSE IF Severity(b.c) > Severity(a.c) THEN b
    ELSE CASE a.c = "Ok"       -> [a EXCEPT !.vs = @ \o b.vs]
           [] a.c = "Retry"    -> [a EXCEPT !.ms = @ \cup b.ms,
                                            !.d = IF b.d > @ THEN b.d ELSE @]
           [] a.c = "PermFail" -> [a EXCEPT !.ms = @ \cup b.ms]
           [] OTHER            -> b
RECURSIVE Fold(_, _)
Fold(acc, s) == IF s = <<>> THEN acc ELSE Fold(Pair(acc, Lift(Head(s))), Tail(s))
Aggregate(s) == Fold([c |-> "DepSkip", ms |-> {}, d |-> 0, vs |-> <<>>], s)

Right(s, r) ==
    /\ r.c = ClassOf(s)
    /\ r.c \in {"Retry", "PermFail"} => Messages(s, r.c) \subseteq r.ms
    /\ r.c = "Ok" => r.vs = Values(s)
    /\ r.c = "Retry" => r.d = MaxDelay(s)

(* ------------------------------ design model ----------------------------- *)
(* The fold is grown one outcome at a time.  `lift` checks associativity:    *)
(* any split of the sequence, each part aggregated alone, gives the same.    *)
CONSTANTS MaxLen, Universe
VARIABLE seq
Kinds == {[c |-> c, m |-> m, d |-> 0, v |-> 0] : c \in {"DepSkip", "Skip", "PermFail"}, m \in {"", "x"}}
    \cup {[c |-> "Retry", m |-> m, d |-> d, v |-> 0] : m \in {"", "x"}, d \in {0, 7}}
    \cup {[c |-> "Ok", m |-> "", d |-> 0, v |-> 0]}
U == {o \in Kinds : Universe = "all" \/ ~(o.c \in {"DepSkip", "Skip"} /\ o.m # "")}
\* every occurrence carries its own message and value
Tag(o, k) == [o EXCEPT !.m = IF @ = "" THEN "" ELSE "m" \o ToString(k),
                       !.v = k,
                       !.d = IF @ = 0 THEN 0 ELSE @ + k]
Init == seq = <<>>
Next == Len(seq) < MaxLen /\ \E o \in U : seq' = Append(seq, Tag(o, Len(seq) + 1))

Lossless == seq = <<>> \/ Right(seq, Aggregate(seq))
Split == \A k \in 0..Len(seq) :
    LET l == Aggregate(SubSeq(seq, 1, k))  r == Aggregate(SubSeq(seq, k + 1, Len(seq)))
        p == Pair(l, r)  w == Aggregate(seq)
    IN p.c = w.c /\ p.vs = w.vs /\ (p.c \in {"Retry", "PermFail"} => p = w)
Swap == \A k \in 1..(Len(seq) - 1) :
    LET sw == [seq EXCEPT ![k] = seq[k+1], ![k+1] = seq[k]]
        a == Aggregate(seq)  b == Aggregate(sw)
    IN a.c = b.c /\ (a.c \in {"Retry", "PermFail"} => a = b)
Emit == PrintT("T " \o ToJson(seq'))
=============================================================================
