----------------------------- MODULE LiteralSem -----------------------------
(* What a value written literally in a definition stands for (C11).          *)
(*   <<"s", code points>>  <<"i", negative, digits>>                         *)
(*   <<"f", negative, digits, exponent>> (digits without leading or trailing *)
(*   zeros)  <<"b", bool>>  <<"z">>  <<"l", seq>>                             *)
(*   <<"m", seq of <<key code points, value>> in key order>>                 *)
(*   <<"e", what>>: not a JSON value, or nothing was delivered               *)
(* Everything stands for itself, except a string which is itself a decimal   *)
(* numeral, which stands for that number.                                    *)
EXTENDS Integers, Sequences, FiniteSets

Digit(c) == c \in 48..57
RECURSIVE RunOf(_, _), Strip0(_), Tail0(_), ToInt(_)
RunOf(s, k) == IF k <= Len(s) /\ Digit(s[k]) THEN 1 + RunOf(s, k + 1) ELSE 0
Strip0(d) == IF d # <<>> /\ d[1] = 48 THEN Strip0(Tail(d)) ELSE d
Tail0(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN 1 + Tail0(SubSeq(d, 1, Len(d) - 1)) ELSE 0
(* exponents beyond four digits are never representable                      *)
ToInt(d) == IF d = <<>> THEN 0
            ELSE ToInt(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
Exponent(d) == LET x == Strip0(d) IN IF Len(x) > 4 THEN 99999 ELSE ToInt(x)

Integer(neg, d) == LET x == Strip0(d) IN <<"i", neg /\ x # <<>>, x>>
Float(neg, d, e) ==
    LET x == Strip0(d)  z == Tail0(x)
    IN IF x = <<>> THEN <<"f", FALSE, <<>>, 0>>
       ELSE <<"f", neg, SubSeq(x, 1, Len(x) - z), e + z>>

(* -?[0-9]+(.[0-9]+)?([eE][+-]?[0-9]+)?                                      *)
Parse(s) ==
    LET neg == s # <<>> /\ s[1] = 45
        a == IF neg THEN 2 ELSE 1
        b == a + RunOf(s, a)
        frac == b <= Len(s) /\ s[b] = 46
        c == IF frac THEN b + 1 + RunOf(s, b + 1) ELSE b
        ex == c <= Len(s) /\ s[c] \in {69, 101}
        sign == ex /\ c + 1 <= Len(s) /\ s[c + 1] \in {43, 45}
        d == IF sign THEN c + 2 ELSE c + 1
        z == IF ex THEN d + RunOf(s, d) ELSE c
        exp == IF ex THEN Exponent(SubSeq(s, d, z - 1)) ELSE 0
        signed == IF sign /\ s[c + 1] = 45 THEN -exp ELSE exp
    IN [ok |-> b > a /\ (frac => c > b + 1) /\ (ex => z > d) /\ z = Len(s) + 1,
        num |-> IF ~frac /\ ~ex THEN Integer(neg, SubSeq(s, a, b - 1))
                ELSE Float(neg, SubSeq(s, a, b - 1) \o (IF frac THEN SubSeq(s, b + 1, c - 1) ELSE <<>>),
                           signed - (IF frac THEN c - 1 - b ELSE 0))]
Numeral(s) == Parse(s).ok

MaxPos == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MaxNeg == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE
             ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Leq(Tail(a), Tail(b))
(* Numbers a 64-bit integer or a double holds with all their digits.         *)
Representable(n) ==
    IF n[1] = "i"
    THEN Len(n[3]) < 19 \/ (Len(n[3]) = 19 /\ Leq(n[3], IF n[2] THEN MaxNeg ELSE MaxPos))
    ELSE Len(n[3]) <= 15 /\ n[4] + Len(n[3]) \in -290..290

RECURSIVE Delivered(_, _)
(* Written value w is delivered as d.                                        *)
Delivered(w, d) ==
    CASE w[1] = "s" ->
            IF ~Numeral(w[2]) THEN d = w
            ELSE LET n == Parse(w[2]).num
                 IN IF Representable(n) THEN d = n ELSE d = w \/ d[1] \in {"i", "f"}
      [] w[1] = "l" -> /\ d[1] = "l"
                       /\ Len(d[2]) = Len(w[2])
                       /\ \A k \in 1..Len(w[2]) : Delivered(w[2][k], d[2][k])
      [] w[1] = "m" -> /\ d[1] = "m"
                       /\ Len(d[2]) = Len(w[2])
                       /\ \A k \in 1..Len(w[2]) : /\ d[2][k][1] = w[2][k][1]
                                                  /\ Delivered(w[2][k][2], d[2][k][2])
      [] OTHER -> d = w

(* What went wrong first, for the report.                                    *)
RECURSIVE Wrong(_, _)
Wrong(w, d) ==
    IF Delivered(w, d) THEN {}
    ELSE IF d[1] = "e" THEN {"nothing-delivered"}
    ELSE CASE w[1] = "s" -> IF Numeral(w[2]) THEN {"numeral-changed"}
                            ELSE IF d[1] = "s" THEN {"string-changed"} ELSE {"string-retyped"}
           [] w[1] = "l" /\ d[1] = "l" /\ Len(d[2]) = Len(w[2]) ->
                 UNION {Wrong(w[2][k], d[2][k]) : k \in 1..Len(w[2])}
           [] w[1] = "m" /\ d[1] = "m" /\ Len(d[2]) = Len(w[2])
                /\ (\A k \in 1..Len(w[2]) : d[2][k][1] = w[2][k][1]) ->
                 UNION {Wrong(w[2][k][2], d[2][k][2]) : k \in 1..Len(w[2])}
           [] w[1] = "m" /\ d[1] = "m" -> {"keys-changed"}
           [] w[1] \in {"i", "f", "b", "z"} -> {"scalar-changed"}
           [] OTHER -> {"structure-changed"}
=============================================================================
