------------------------------ MODULE PlannerMC ------------------------------
(* Planner with an abstract clock: building costs nothing or one tick, a        *)
(* refined slice one or two; every search may succeed or fail.                   *)
EXTENDS Planner, FiniteSets
CONSTANTS MaxN, MaxLimit
VARIABLE clock
vars == <<pvars, clock>>
Init == \E s \in 1..MaxN, l \in 0..MaxLimit : Fresh(s, l) /\ clock = 0
Next == \/ Sample /\ UNCHANGED clock
        \/ \E s \in 0..(n-1) : BuildSlice(s) /\ clock' \in {clock, clock + 1}
        \/ Connect /\ UNCHANGED clock
        \/ \E ok \in BOOLEAN : Search(ok, clock) /\ UNCHANGED clock
        \/ \E s \in 0..(n-1) : RefineSlice(s) /\ clock' \in {clock + 1, clock + 2}
        \/ \E s \in 0..(n-1) : JoinEarlier(s) /\ UNCHANGED clock
        \/ End /\ UNCHANGED clock
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
TypeOk == k \in 0..n /\ round \in Nat /\ phase \in {"idle", "build", "search", "decide", "join", "ended"}
(* every requested slice once, in order, before anything else *)
OnceInOrder == /\ \A j \in 1..Len(blocks) : j <= n => blocks[j] = <<0, j - 1>>
               /\ \A j \in 1..Len(blocks) : blocks[j] = << (j - 1) \div n, (j - 1) % n >>
               /\ phase \notin {"idle", "build"} => Len(blocks) >= n
(* the roadmap only grows; nothing is constructed after success *)
Grows == [][ /\ Len(blocks') >= Len(blocks) /\ SubSeq(blocks', 1, Len(blocks)) = blocks
             /\ (solved => blocks' = blocks)
             /\ (round > 0 \/ phase # "build") /\ blocks' # blocks => ~(limit \prec total) ]_vars
(* the answer is the answer of the last search; a failed plan used its time *)
EndedWell == phase = "ended" => solved \/ limit \preceq total
(* at most one slice beyond the limit *)
Overrun == clock <= MaxLimit + MaxN + 2
Ends == <>(phase = "ended")
=============================================================================
