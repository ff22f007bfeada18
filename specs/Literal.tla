------------------------------ MODULE Literal -------------------------------
(* Literal values are spliced into CEL source text and read back by CEL's     *)
(* lexer.  Model of both sides: the writer (quoting, escaping, numerals) and  *)
(* the reader (short and long cooked/raw string tokens found by a non-greedy  *)
(* backtracking match, escape expansion, numbers, lists, maps).  Texts grow   *)
(* character by character over an alphabet with one representative per        *)
(* lexical class; reading what was written gives what it stands for.          *)
EXTENDS LiteralSem, SequencesExt, TLC, Json
CONSTANTS Alphabet, MaxLen, Writer
VARIABLE s

Q == 34  BS == 92  NL == 10
Escapes == (34 :> 34) @@ (39 :> 39) @@ (92 :> 92) @@ (110 :> 10) @@ (114 :> 13)
           @@ (116 :> 9) @@ (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (118 :> 11)
Spelled == (34 :> <<92, 34>>) @@ (92 :> <<92, 92>>) @@ (10 :> <<92, 110>>)
           @@ (13 :> <<92, 114>>) @@ (9 :> <<92, 116>>)
QQQ == <<Q, Q, Q>>

-----------------------------------------------------------------------------
(* The writer, and some which are not good enough.                           *)
Spell(x, which) == FlattenSeq([k \in 1..Len(x) |->
                       IF x[k] \in which THEN Spelled[x[k]] ELSE <<x[k]>>])
In(x, c) == \E k \in 1..Len(x) : x[k] = c
Text(x) ==
    CASE Writer = "koreo" ->
            LET q == IF In(x, Q) THEN QQQ ELSE <<Q>>
            IN q \o Spell(x, DOMAIN Spelled) \o q
      [] Writer = "raw-newlines" ->
            IF In(x, NL) THEN <<114>> \o QQQ \o x \o QQQ
            ELSE LET q == IF In(x, Q) THEN QQQ ELSE <<Q>> IN q \o Spell(x, {Q, BS}) \o q
      [] Writer = "no-backslash" ->
            LET q == IF In(x, Q) THEN QQQ ELSE <<Q>> IN q \o Spell(x, {Q, NL}) \o q
      [] Writer = "long-when-newline" ->
            LET q == IF In(x, Q) \/ In(x, NL) THEN QQQ ELSE <<Q>> IN q \o Spell(x, {Q, BS}) \o q
      [] OTHER -> <<Q>> \o Spell(x, DOMAIN Spelled) \o <<Q>>
NumberLike(x) == IF Writer = "lookalikes" THEN x # <<>> /\ \A k \in 1..Len(x) : Digit(x[k]) \/ x[k] \in {32, 45, 46}
                 ELSE Numeral(x)
RECURSIVE Write(_)
Join(xs) == FlattenSeq([k \in 1..Len(xs) |-> IF k = 1 THEN xs[k] ELSE <<44>> \o xs[k]])
Write(v) ==
    CASE v[1] = "s" -> IF NumberLike(v[2]) THEN v[2] ELSE Text(v[2])
      [] v[1] = "l" -> <<91>> \o Join([k \in 1..Len(v[2]) |-> Write(v[2][k])]) \o <<93>>
      [] v[1] = "m" -> <<123>> \o Join([k \in 1..Len(v[2]) |->
                            (IF Writer = "bare-keys" THEN <<Q>> \o v[2][k][1] \o <<Q>>
                             ELSE Text(v[2][k][1])) \o <<58>> \o Write(v[2][k][2])]) \o <<125>>

-----------------------------------------------------------------------------
(* The reader.                                                               *)
Is(src, p, x) == p + Len(x) - 1 <= Len(src) /\ SubSeq(src, p, p + Len(x) - 1) = x
RECURSIVE Close(_, _, _)
(* position of the closing quote of the token whose content starts at p      *)
Close(src, p, q) ==
    IF p > Len(src) THEN 0
    ELSE IF Is(src, p, q) THEN p
    ELSE IF src[p] = BS /\ p < Len(src) /\ src[p + 1] \in DOMAIN Escapes
         THEN LET e == Close(src, p + 2, q)
              IN IF e # 0 THEN e ELSE Close(src, p + 1, q)
    ELSE IF src[p] = NL /\ q # QQQ THEN 0
    ELSE Close(src, p + 1, q)
RECURSIVE Expand(_)
Expand(x) ==
    IF x = <<>> THEN <<>>
    ELSE IF x[1] = BS /\ Len(x) > 1 /\ x[2] \in DOMAIN Escapes
         THEN <<Escapes[x[2]]>> \o Expand(SubSeq(x, 3, Len(x)))
    ELSE IF x[1] = NL THEN Expand(Tail(x))
    ELSE <<x[1]>> \o Expand(Tail(x))

Bad == [v |-> <<"e", "syntax">>, at |-> 0]
ReadText(src, p) ==
    LET raw == src[p] = 114
        o == IF raw THEN p + 1 ELSE p
        q == IF Is(src, o, QQQ) THEN QQQ ELSE <<Q>>
        e == Close(src, o + Len(q), q)
        x == SubSeq(src, o + Len(q), e - 1)
    IN IF e = 0 THEN Bad
       ELSE [v |-> <<"s", IF raw THEN x ELSE Expand(x)>>, at |-> e + Len(q)]
NumberChars == (48..57) \cup {45, 46, 101}
RECURSIVE Span(_, _)
Span(src, p) == IF p <= Len(src) /\ src[p] \in NumberChars THEN 1 + Span(src, p + 1) ELSE 0
RECURSIVE Read(_, _), ReadItems(_, _, _), ReadPairs(_, _, _)
Read(src, p) ==
    IF p > Len(src) THEN Bad
    ELSE IF src[p] = Q \/ (src[p] = 114 /\ Is(src, p + 1, <<Q>>)) THEN ReadText(src, p)
    ELSE IF src[p] = 91 THEN ReadItems(src, p + 1, <<>>)
    ELSE IF src[p] = 123 THEN ReadPairs(src, p + 1, <<>>)
    ELSE LET n == Span(src, p)  x == SubSeq(src, p, p + n - 1)
         IN IF Numeral(x) THEN [v |-> Parse(x).num, at |-> p + n] ELSE Bad
ReadItems(src, p, acc) ==
    LET r == Read(src, p) IN
    IF r.at = 0 \/ r.at > Len(src) THEN Bad
    ELSE IF src[r.at] = 44 THEN ReadItems(src, r.at + 1, Append(acc, r.v))
    ELSE IF src[r.at] = 93 THEN [v |-> <<"l", Append(acc, r.v)>>, at |-> r.at + 1]
    ELSE Bad
ReadPairs(src, p, acc) ==
    LET k == Read(src, p) IN
    IF k.at = 0 \/ k.at > Len(src) \/ src[k.at] # 58 \/ k.v[1] # "s" THEN Bad
    ELSE LET r == Read(src, k.at + 1)  x == Append(acc, <<k.v[2], r.v>>) IN
         IF r.at = 0 \/ r.at > Len(src) THEN Bad
         ELSE IF src[r.at] = 44 THEN ReadPairs(src, r.at + 1, x)
         ELSE IF src[r.at] = 125 THEN [v |-> <<"m", x>>, at |-> r.at + 1]
         ELSE Bad
ReadAll(src) == LET r == Read(src, 1) IN IF r.at = Len(src) + 1 THEN r.v ELSE Bad.v

-----------------------------------------------------------------------------
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)

Expression == s # <<>> /\ s[1] = 61
Values == {<<"s", s>>, <<"l", <<<<"s", s>>, <<"s", <<97>>>>, <<"s", s>>>>>>,
           <<"m", <<<<s, <<"l", <<<<"s", s>>>>>>>>, <<<<97, 97, 97, 97, 97, 97>>, <<"s", s>>>>>>>>}
(* A key is never an expression: it is always written as text.               *)
RoundTrip == ~Expression => \A v \in Values : Delivered(v, ReadAll(Write(v)))
KeyTrip == LET v == <<"m", <<<<s, <<"s", <<>>>>>>>>>> IN Delivered(v, ReadAll(Write(v)))

Emit == PrintT("T " \o ToJson(s'))
=============================================================================
