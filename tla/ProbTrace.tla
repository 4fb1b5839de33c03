------------------------------ MODULE ProbTrace ------------------------------
(* D06: recorded lives of plans of the articulated planner, along ProbPlanner.   *)
(* r.log are the planner's steps, r.confs the configurations it kept, one per    *)
(* C-slice.                                                                       *)
EXTENDS ProbPlanner, TLC, Poses
VARIABLES i, j, looked   \* plan, steps of it done, look-ups of this search
vars == <<pvars, i, j, looked>>
Trace == LoadTrace(TraceFile)
r == Trace[i]
Every == 60
Log == r.log
ev == Log[j + 1]
At(e) == j < Len(Log) /\ ev.e = e
Step == j' = j + 1
Quiet == UNCHANGED <<i, looked>>
Init == i \in 1..Len(Trace) /\ j = 0 /\ looked = {} /\ Fresh(r.limit)
Kept(x) == ev.nv = x
(* the block the step constructs, and the lines it sweeps *)
Block == r.blocks[Len(blocks')]
Swept == /\ Len(blocks') <= Len(r.blocks) /\ Block.s = ev.a
         /\ Block.lx = r.lx * (2 ^ refs') /\ Block.ly = r.ly * (2 ^ refs')
NewSlice == At("slice") /\ Grow /\ ev.a = m /\ Kept(m + 1) /\ Swept /\ Step /\ Quiet
Joining  == At("join") /\ Kept(m) /\ (Join \/ (m = 1 /\ phase = "search" /\ looked = {} /\ UNCHANGED pvars)) /\ Step /\ Quiet
Look     == /\ (At("start") \/ At("goal")) /\ phase = "search" /\ ev.e \notin looked /\ Kept(m)
            /\ looked' = looked \cup {ev.e} /\ UNCHANGED <<pvars, i>> /\ Step
(* all that was done is counted *)
Counts(t, spent) == t \succeq (spent \ominus R("2e-4"))
(* what a search found shows with the next step *)
Reveal == /\ looked = {"start", "goal"} /\ looked' = {}
          /\ IF j < Len(Log) THEN Counts(ev.total, ev.spent) ELSE Counts(r.total, r.spent)
          /\ Search(IF j < Len(Log) THEN ev.solved ELSE r.solved, IF j < Len(Log) THEN ev.total ELSE r.total)
          /\ UNCHANGED <<i, j>>
Refine == /\ At("slice") /\ (RefineFirst(Every, r.points) \/ RefineNext)
          /\ ev.a = k' - 1 /\ Kept(m) /\ Swept /\ Step /\ Quiet
Older  == At("grow") /\ JoinOld /\ ev.a = k - 1 /\ Kept(m) /\ Step /\ Quiet
On     == GoOn(Every, r.points) /\ UNCHANGED <<i, j, looked>>
Finish == j = Len(Log) /\ End /\ UNCHANGED <<i, j, looked>>
Cut    == r.forced /\ r.v = <<>> /\ j = Len(Log) /\ phase = "search"    \* the recorder gave up: nothing to attach to
Done   == (phase = "ended" \/ Cut) /\ UNCHANGED vars
Next == NewSlice \/ Joining \/ Look \/ Reveal \/ Refine \/ Older \/ On \/ Finish \/ Done
-----------------------------------------------------------------------------
(* one configuration per slice: start, goal, then random ones *)
Quarter == R("1.5707964")
Joints(c) == SubSeq(c, 8, Len(c))
Rot4(c) == SubSeq(c, 4, 7)
Sampled == j = 0 =>
    LET C == r.confs
        N == Len(C)
    IN  /\ N >= 1 /\ \A s \in 1..N : Len(C[s]) = 7 + r.dof
        /\ VNear(SubSeq(C[1], 4, 7 + r.dof), SubSeq(r.start, 4, 7 + r.dof), 0)
        /\ N >= 2 => VNear(SubSeq(C[2], 4, 7 + r.dof), SubSeq(r.goal, 4, 7 + r.dof), 0)
        /\ \A s \in 3..N : /\ Near(Norm(Rot4(C[s])), 1, R("1e-9"))
                           /\ \A x \in 8..(7 + r.dof) : RAbs(C[s][x]) \preceq Quarter
                           /\ \A t \in 1..(s - 1) : /\ ~QNear(Rot4(C[s]), Rot4(C[t]), R("1e-6"))
                                                    /\ \A x \in 8..(7 + r.dof) : ~Near(C[s][x], C[t][x], R("1e-9"))
(* the joint range is used *)
Spread == (j = 0 /\ Len(r.confs) >= 40) =>
    \A x \in 8..(7 + r.dof) : /\ \E s \in 3..Len(r.confs) : r.confs[s][x] \succ 1
                              /\ \E s \in 3..Len(r.confs) : r.confs[s][x] \prec -1
                              /\ \E s \in 3..Len(r.confs) : RAbs(r.confs[s][x]) \prec R("0.5")
(* every vertex has the orientation and the joints of its slice *)
Carried == j = 0 =>
    \A b \in 1..Len(r.blocks) :
      LET c == r.confs[r.blocks[b].s + 1]
      IN  \A u \in (r.blocks[b].from + 1)..r.blocks[b].to :
            /\ Len(r.v[u]) = 7 + r.dof /\ QNear(Rot4(r.v[u]), Rot4(c), R("1e-6")) /\ VNear(Joints(r.v[u]), Joints(c), 0)
(* the edges each slice got when it was joined lead to the closest earlier one *)
SliceOf(u) == r.blocks[CHOOSE b \in 1..Len(r.blocks) : r.blocks[b].from <= u /\ u < r.blocks[b].to].s
Closest(s, t) == \A x \in 0..(s - 1) : Dist(r.confs[s + 1], r.confs[t + 1]) \preceq (Dist(r.confs[s + 1], r.confs[x + 1]) \oplus R("1e-9"))
JoinedToClosest == j = 0 =>
    LET J == SelectSeq(r.multi, LAMBDA x : TRUE)
        off == Len(r.confs) - Len(J)
    IN  /\ off \in {0, 1}
        /\ \A q \in 1..Len(J) : \A e \in (J[q][1] + 1)..J[q][2] :
             LET a == SliceOf(r.e[e][1])
                 b == SliceOf(r.e[e][2])
                 s == q + off - 1
             IN  \/ a = s /\ b < s /\ Closest(s, b)
                 \/ b = s /\ a < s /\ Closest(s, a)
TotalIsSum == j = 0 => /\ RAbs(r.total \ominus (r.build \oplus r.search)) \preceq R("1e-9")
                       /\ r.total \preceq (r.wall \oplus R("1e-3"))         \* and nothing twice
=============================================================================
