---------------------------- MODULE PlannerCases -----------------------------
(* Histories of a plan: number of slices, limit in ticks (-1: negative), the    *)
(* search that succeeds (or none), and which steps take a tick.                  *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Json, RealNum
T == Param("tier", "quick") = "thorough"
Succeeds == 0..(IF T THEN 8 ELSE 5)              \* 0: never
Outcome(s) == IF s = 0 THEN <<0, 0>> ELSE [j \in 1..s |-> IF j = s THEN 1 ELSE 0]
Costs == { [j \in 1..24 |-> 1], [j \in 1..24 |-> 0], [j \in 1..24 |-> j % 2], [j \in 1..24 |-> IF j > 4 THEN 1 ELSE 0],
           [j \in 1..24 |-> IF j = 5 THEN 9 ELSE 0], [j \in 1..24 |-> IF j = 1 THEN 6 ELSE 1] }
Cases == SetToSeq({ [n |-> s, limit |-> l, outcome |-> Outcome(o), cost |-> c] :
                    s \in 1..(IF T THEN 4 ELSE 3), l \in (IF T THEN -1..14 ELSE {-1, 0, 1, 4, 7, 11}), o \in Succeeds, c \in Costs })
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
