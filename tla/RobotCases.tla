------------------------------ MODULE RobotCases ------------------------------
(* Every history of RigidRobot up to a length: 0 boundaries, 9 work on a copy, *)
(* 1 transform without rotation, 2 half a turn, 3 a random transform, 4 one that *)
(* keeps the orientation.                                                        *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Json, RealNum
Thorough == Param("tier", "quick") = "thorough"
Ops == {0, 1, 2, 3, 4, 9}
MaxLen == IF Thorough THEN 4 ELSE 3
Hist == UNION { [1..n -> Ops] : n \in 0..MaxLen }
Cases == SetToSeq({ [links |-> l, ops |-> h] : l \in {0, 1, 5}, h \in Hist })
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
