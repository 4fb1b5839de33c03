---------------------------- MODULE IntervalCases ---------------------------
(* Every list of up to three closed intervals of a small grid, and every     *)
(* (outer, sorted disjoint inner) pair, written out for the real code.       *)
EXTENDS Intervals, TLC, SequencesExt, Json
N == IF Param("tier", "quick") = "thorough" THEN 4 ELSE 3
Grid  == { <<a, b>> \in (0..N) \X (0..N) : a <= b }
Lists == UNION { [1..n -> Grid] : n \in 0..3 }
G2    == { <<a, b>> \in (0..(N+2)) \X (0..(N+2)) : a <= b }
Inner == { l \in UNION { [1..n -> G2] : n \in 0..3 } : \A k \in 1..(Len(l)-1) : l[k][2] < l[k+1][1] }
Cases == SetToSeq({ [k |-> "list", ins |-> l] : l \in Lists })
         \o SetToSeq({ [k |-> "comp", outer |-> <<o>>, inner |-> l] : o \in G2, l \in Inner })
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
