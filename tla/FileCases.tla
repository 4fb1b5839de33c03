------------------------------ MODULE FileCases ------------------------------
(* Files of comma-separated records, abstractly: every line is a comment or a   *)
(* record of so many numbers, written in some style.                             *)
(* Styles: 0 plain, 1 with blanks after commas, 2 with a carriage return,        *)
(* 3 in exponent notation, 4 with a comma after the last number.                 *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Json, RealNum
T == Param("tier", "quick") = "thorough"
LinesOf == { [c |-> TRUE, n |-> 2, style |-> 0] } \cup { [c |-> FALSE, n |-> m, style |-> s] : m \in {1, 3, 12}, s \in 0..7 }
Few     == { [c |-> TRUE, n |-> 2, style |-> 0], [c |-> FALSE, n |-> 1, style |-> 0], [c |-> FALSE, n |-> 3, style |-> 1], [c |-> FALSE, n |-> 12, style |-> 3] }
Files   == UNION { [1..m -> LinesOf] : m \in 0..2 } \cup UNION { [1..m -> Few] : m \in 3..(IF T THEN 5 ELSE 4) }
(* ended: the last line ends with a line break *)
Cases   == SetToSeq({ [lines |-> f, ended |-> e] : f \in Files, e \in BOOLEAN })
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
