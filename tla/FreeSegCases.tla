---------------------------- MODULE FreeSegCases ----------------------------
(* Scenes on a lattice for A02: every choice of up to MaxObs obstacles from   *)
(* a catalogue (touching, overlapping, nested, outside, tangent to sweep      *)
(* lines), several arenas, several limits.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, RealNum
Thorough == Param("tier", "quick") = "thorough"
Box(x0, y0, x1, y1) == << <<x0,y0>>, <<x1,y0>>, <<x1,y1>>, <<x0,y1>>, <<x0,y0>> >>
Diamond(x, y, d) == << <<x+d,y>>, <<x,y+d>>, <<x-d,y>>, <<x,y-d>>, <<x+d,y>> >>
Tri(x, y, d) == << <<x,y>>, <<x,y+d>>, <<x+d,y>>, <<x,y>> >>        \* clockwise
Obstacles == << Box(2,2,4,4), Box(4,2,6,4), Box(3,3,5,6), Diamond(4,4,2), Diamond(8,4,1), Tri(5,5,3),
                Box(-2,1,1,3), Box(11,11,12,12), Box(0,4,12,5), Diamond(4,4,1), Tri(1,6,2), Box(7,1,8,9) >>
Arenas == << << Box(0,0,10,10) >>, << Diamond(5,5,5) >>, << Box(0,0,6,8), Box(4,1,10,10) >>,
             << Box(-3,-3,13,13), Diamond(5,5,6) >>, << Box(0,0,3,10), Box(7,0,10,10) >> >>
Limits == << <<0, 10>>, <<-5, 15>>, <<3, 7>> >>
MaxObs == IF Thorough THEN 4 ELSE 2
Chosen == { S \in SUBSET (1..Len(Obstacles)) : Cardinality(S) <= MaxObs }
Cases == SetToSeq({ [k |-> "fs2",
                     arena |-> Arenas[a],
                     obs |-> [j \in 1..Cardinality(S) |-> Obstacles[SetToSortSeq(S, <)[j]]],
                     lim |-> Limits[l]]
                    : a \in 1..Len(Arenas), l \in 1..Len(Limits), S \in Chosen })
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
