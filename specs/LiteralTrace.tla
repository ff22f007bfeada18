---------------------------- MODULE LiteralTrace ----------------------------
(* case: [at: where it was written, w: written value, d: delivered value]     *)
EXTENDS Judging, LiteralSem
VARIABLE i
(* A ResourceTemplate is not one of the blocks the numeral exception is        *)
(* documented for: there a numeral may also stay the string it is.            *)
Verdict(c) == IF c.at = "template" /\ c.d = c.w THEN {} ELSE Wrong(c.w, c.d)

JInit == i = 0
JNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ Report(i', Verdict(Cases[i']))
         /\ Finish(i')
=============================================================================
