------------------------------- MODULE ProbMC --------------------------------
(* ProbPlanner with an abstract clock: a new slice costs one or two ticks, a     *)
(* refined one none or one; every search may succeed or fail.                     *)
EXTENDS ProbPlanner
CONSTANTS MaxLimit, Every, Most
VARIABLES clock, joined   \* joined: slices joined to an earlier one
vars == <<pvars, clock, joined>>
Init == \E l \in 0..MaxLimit : Fresh(l) /\ clock = 0 /\ joined = 0
Next == \/ Grow /\ clock' \in {clock + 1, clock + 2} /\ UNCHANGED joined
        \/ Join /\ joined' = joined + 1 /\ UNCHANGED clock
        \/ \E ok \in BOOLEAN : Search(ok, clock) /\ UNCHANGED <<clock, joined>>
        \/ RefineFirst(Every, Most) /\ clock' \in {clock, clock + 1} /\ UNCHANGED joined
        \/ RefineNext /\ clock' \in {clock, clock + 1} /\ UNCHANGED joined
        \/ JoinOld /\ UNCHANGED <<clock, joined>>
        \/ GoOn(Every, Most) /\ UNCHANGED <<clock, joined>>
        \/ End /\ UNCHANGED <<clock, joined>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
New    == SelectSeq(blocks, LAMBDA b : b[1] = 0)
Of(q)  == SelectSeq(blocks, LAMBDA b : b[1] = q)
(* one slice after the other; a round sweeps the slices there are, in order *)
InOrder == /\ \A j \in 1..Len(New) : New[j] = <<0, j - 1>>
           /\ Len(New) = m
           /\ \A q \in 1..refs : LET B == Of(q) IN /\ Len(B) % Every = 0 \/ q = refs
                                                   /\ \A j \in 1..Len(B) : B[j] = <<q, j - 1>>
           /\ refs <= Most
(* every slice but the first is joined before it is searched *)
Joined  == phase \in {"search", "decide", "grow", "ended"} => joined = (IF m = 0 THEN 0 ELSE m - 1)
EndedWell == phase = "ended" => solved \/ limit \preceq total
Grows == [][ /\ SubSeq(blocks', 1, Len(blocks)) = blocks
             /\ blocks' # blocks => ~solved /\ (blocks = <<>> \/ total \preceq limit) ]_vars
Overrun == clock <= MaxLimit + 3
Ends    == <>(phase = "ended")
=============================================================================
