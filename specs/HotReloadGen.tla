---------------------------- MODULE HotReloadGen ----------------------------
(* All small schedules: every sequence of Len external operations on        *)
(* definitions a <- b <- c (and a <- c), each placed Gap loop turns after   *)
(* the previous one, with preparers suspending for Delay turns.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS L, Gaps, Delays, Names
VARIABLE x

Op == [op : {"offer", "delete"}, n : Names, gap : Gaps, delay : Delays]
Useful(o) == o.op = "delete" => o.delay = CHOOSE d \in Delays : \A e \in Delays : d <= e
Ops == {o \in Op : Useful(o)}
Init == x = <<>>
Next == Len(x) < L /\ \E o \in Ops : x' = Append(x, o)
Emit == IF Len(x') = L THEN PrintT("T " \o ToJson(x')) ELSE TRUE
=============================================================================
