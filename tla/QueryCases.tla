----------------------------- MODULE QueryCases ------------------------------
(* Histories of queries to one planner: kinds of end points. "ab", "ba", "cd":  *)
(* both ends free; "xb": the start is in an obstacle; "ax": the goal is.        *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Json, RealNum
T == Param("tier", "quick") = "thorough"
K == {"ab", "ba", "cd", "xb", "ax"}
H == UNION { [1..n -> K] : n \in 1..(IF T THEN 3 ELSE 2) }
       \cup (IF T THEN {} ELSE { <<a, b, c>> : a \in {"ab"}, b \in {"xb", "ax", "cd"}, c \in {"ba", "xb", "cd"} })
Cases == SetToSeq({ [h |-> h] : h \in H })
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
