------------------------------- MODULE Planner -------------------------------
(* The life of one plan: sample orientations, construct every C-slice once, in *)
(* order, connect them, search; then refine slice by slice - construct, join   *)
(* to the earlier round, search - only while unsolved and within the limit.     *)
(* Used twice: PlannerMC explores it with an abstract clock, PlannerTrace runs  *)
(* it along the recorded life of real planners.                                 *)
EXTENDS RealNum
VARIABLES phase,   \* "idle", "build", "search", "decide", "join", "ended"
          n,       \* number of C-slices
          limit,   \* time limit
          k,       \* slices constructed in this round
          round,   \* 0 while building, then the number of the refinement round
          total,   \* planning time accumulated when the last search ended
          solved,
          blocks   \* what was appended to the roadmap so far: <<round, slice>>
pvars == <<phase, n, limit, k, round, total, solved, blocks>>

Fresh(slices, lim) == /\ phase = "idle" /\ n = slices /\ limit = lim /\ k = 0 /\ round = 0
                      /\ total = 0 /\ solved = FALSE /\ blocks = <<>>
FreshNext(slices, lim) == /\ phase' = "idle" /\ n' = slices /\ limit' = lim /\ k' = 0 /\ round' = 0
                          /\ total' = 0 /\ solved' = FALSE /\ blocks' = <<>>
Sample == /\ phase = "idle"
          /\ phase' = "build"
          /\ UNCHANGED <<n, limit, k, round, total, solved, blocks>>
BuildSlice(s) == /\ phase = "build" /\ s = k /\ k < n
                 /\ k' = k + 1 /\ blocks' = Append(blocks, <<0, s>>)
                 /\ UNCHANGED <<phase, n, limit, round, total, solved>>
Connect == /\ phase = "build" /\ k = n
           /\ phase' = "search"
           /\ UNCHANGED <<n, limit, k, round, total, solved, blocks>>
Search(ok, t) == /\ phase = "search"
                 /\ phase' = "decide" /\ solved' = ok /\ total' = t
                 /\ UNCHANGED <<n, limit, k, round, blocks>>
MayRefine == ~solved /\ (IF k = n THEN total \prec limit ELSE total \preceq limit)
RefineSlice(s) == /\ phase = "decide" /\ MayRefine
                  /\ s = IF k = n THEN 0 ELSE k
                  /\ k' = s + 1 /\ round' = IF k = n THEN round + 1 ELSE round
                  /\ blocks' = Append(blocks, <<round', s>>)
                  /\ phase' = "join"
                  /\ UNCHANGED <<n, limit, total, solved>>
JoinEarlier(s) == /\ phase = "join" /\ s = k - 1
                  /\ phase' = "search"
                  /\ UNCHANGED <<n, limit, k, round, total, solved, blocks>>
End == /\ phase = "decide" /\ ~MayRefine
       /\ phase' = "ended"
       /\ UNCHANGED <<n, limit, k, round, total, solved, blocks>>
Lines(first) == first * (2 ^ round)
=============================================================================
