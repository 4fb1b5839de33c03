----------------------------- MODULE GraphCases ------------------------------
(* Every graph on up to 4 vertices in several layouts, with start and goal sets. *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Json, RealNum, FiniteSets
T == Param("tier", "quick") = "thorough"
All == { <<0,1>>, <<0,2>>, <<0,3>>, <<1,2>>, <<1,3>>, <<2,3>> }
Layouts == { << <<0,0,0>>, <<4,0,0>>, <<1,1,0>>, <<3,-2,1>> >>,           \* direct way longer or shorter than the detours
             << <<0,0,0>>, <<1,0,0>>, <<2,0,0>>, <<3,0,0>> >>,
             << <<0,0,0>>, <<0,0,0>>, <<2,1,0>>, <<2,1,3>> >> }           \* vertices at the same place
Sets == { <<>>, <<0>>, <<3>>, <<1>>, <<0, 2>>, <<2, 0>>, <<3, 1>>, <<1, 2, 3>> }
Some == IF T THEN Sets ELSE Sets \ { <<2, 0>>, <<1>> }
Cases == SetToSeq({ [v |-> l, e |-> SetToSeq(e), s |-> s, g |-> g] : l \in Layouts, e \in SUBSET All, s \in Some, g \in Sets })
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
