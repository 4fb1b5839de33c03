----------------------------- MODULE ProbPlanner -----------------------------
(* The life of a plan that adds one random C-slice at a time: sample, construct, *)
(* join to an earlier slice, search; whenever the number of slices is a multiple *)
(* of Every - and a few times at most - refine all slices before going on. Used   *)
(* twice: ProbMC explores it with an abstract clock, ProbTrace runs it along the  *)
(* recorded life of real plans.                                                   *)
EXTENDS RealNum
VARIABLES phase,   \* "grow", "join", "joinold", "search", "decide", "ended"
          m,       \* C-slices so far
          k,       \* slices refined in this round, 0 when not refining
          refs,    \* refinement rounds so far
          total, solved,
          limit,
          blocks   \* <<round, slice>> as constructed, round 0 for a new slice
pvars == <<phase, m, k, refs, total, solved, limit, blocks>>
Fresh(lim) == /\ limit = lim /\ phase = "grow" /\ m = 0 /\ k = 0 /\ refs = 0 /\ total = 0 /\ solved = FALSE /\ blocks = <<>>
Grow == /\ phase = "grow"
        /\ m' = m + 1 /\ blocks' = Append(blocks, <<0, m>>)
        /\ phase' = IF m = 0 THEN "search" ELSE "join"
        /\ UNCHANGED <<limit, k, refs, total, solved>>
Join == /\ phase = "join" /\ phase' = "search"
        /\ UNCHANGED <<limit, m, k, refs, total, solved, blocks>>
Search(ok, t) == /\ phase = "search" /\ phase' = "decide"
                 /\ solved' = ok /\ total' = t
                 /\ UNCHANGED <<limit, m, k, refs, blocks>>
More      == ~solved /\ total \prec limit
InRound   == k > 0 /\ k < m
MayRefine(every, most) == More /\ k = 0 /\ m % every = 0 /\ refs < most
RefineFirst(every, most) ==
        /\ phase = "decide" /\ MayRefine(every, most)
        /\ k' = 1 /\ refs' = refs + 1 /\ blocks' = Append(blocks, <<refs + 1, 0>>)
        /\ phase' = "joinold" /\ UNCHANGED <<limit, m, total, solved>>
RefineNext ==
        /\ phase = "decide" /\ InRound /\ ~solved /\ total \preceq limit
        /\ k' = k + 1 /\ blocks' = Append(blocks, <<refs, k>>)
        /\ phase' = "joinold" /\ UNCHANGED <<limit, m, refs, total, solved>>
JoinOld == /\ phase = "joinold" /\ phase' = "search"
           /\ UNCHANGED <<limit, m, k, refs, total, solved, blocks>>
GoOn(every, most) ==
        /\ phase = "decide" /\ More /\ ~InRound /\ ~MayRefine(every, most)
        /\ phase' = "grow" /\ k' = 0
        /\ UNCHANGED <<limit, m, refs, total, solved, blocks>>
End == /\ phase = "decide"
       /\ IF InRound THEN solved \/ limit \prec total ELSE ~More
       /\ phase' = "ended"
       /\ UNCHANGED <<limit, m, k, refs, total, solved, blocks>>
=============================================================================
