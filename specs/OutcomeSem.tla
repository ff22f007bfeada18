----------------------------- MODULE OutcomeSem -----------------------------
(* Outcomes and what aggregating them means (koreo.result).                 *)
(* An outcome is [c: class, m: message token or "", d: delay, v: value].    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Classes == {"DepSkip", "Skip", "Ok", "Retry", "PermFail"}
Severity(c) == CASE c = "DepSkip" -> 0 [] c = "Skip" -> 1 [] c = "Ok" -> 2
                 [] c = "Retry" -> 3 [] c = "PermFail" -> 4

(* ---- declarative: what aggregating a sequence must yield ---------------- *)
Items(s) == {s[k] : k \in 1..Len(s)}
ClassOf(s) == CHOOSE c \in {o.c : o \in Items(s)} :
                  \A o \in Items(s) : Severity(o.c) <= Severity(c)
OfClass(s, c) == SelectSeq(s, LAMBDA o : o.c = c)
Messages(s, c) == {o.m : o \in Items(OfClass(s, c))} \ {""}
Values(s) == [k \in 1..Len(OfClass(s, "Ok")) |-> OfClass(s, "Ok")[k].v]
MaxDelay(s) == LET D == {o.d : o \in Items(OfClass(s, "Retry"))}
               IN CHOOSE d \in D : \A e \in D : e <= d
=============================================================================
