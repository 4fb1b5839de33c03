---------------------------- MODULE PlannerTrace -----------------------------
(* D04, D05: the recorded life of plans, event by event, along Planner. Each    *)
(* event shows what the planner's result held at that moment.                    *)
EXTENDS Planner, TLC
VARIABLES i, beg, seen, nn, searches
vars == <<pvars, i, beg, seen, nn, searches>>
Trace == LoadTrace(TraceFile)
ev == Trace[i]
At(kind) == i <= Len(Trace) /\ Trace[i].k = kind
Step == i' = i + 1
Same == seen = "" \/ ev.old = seen             \* what was there before is unchanged
Saw  == seen' = ev.all
Graph == ev.nw = ev.ne
NoSearch == nn' = 0
Tol == R("1e-3")

Init == /\ i = 1 /\ beg = [n |-> 0, lx |-> 0, ly |-> 0] /\ seen = "" /\ nn = 0 /\ searches = 0
        /\ phase = "ended" /\ n = 0 /\ limit = 0 /\ k = 0 /\ round = 0 /\ total = 0 /\ solved = FALSE /\ blocks = <<>>
Begin == /\ At("begin") /\ phase = "ended"
         /\ FreshNext(ev.n, ev.limit) /\ beg' = ev /\ seen' = "" /\ searches' = 0 /\ NoSearch /\ Step
Keep == UNCHANGED <<beg, searches>>
Sampled == At("sample") /\ Sample /\ Same /\ Saw /\ Keep /\ NoSearch /\ Step
Refined == /\ ev.lx = beg.lx * (2 ^ round') /\ ev.ly = beg.ly * (2 ^ round')
(* the search that just ended shows its result only with the next event *)
Answer == /\ ev.solved = (searches > 0 /\ searches <= Len(beg.outcome) /\ beg.outcome[searches] = 1)
Slice == /\ At("slice") /\ ~ev.solved /\ Same /\ Graph /\ Saw /\ NoSearch /\ Step
         /\ \/ BuildSlice(ev.s) /\ Keep /\ Refined
            \/ /\ phase = "search" /\ nn > 0
               /\ Answer
               /\ ev.total \succeq (ev.spent \ominus Tol)   \* all that was done so far is counted
               /\ ev.total \preceq limit                   \* (equality may go either way between rounds)
               /\ ev.s = (IF k = n THEN 0 ELSE k)
               /\ k' = ev.s + 1 /\ round' = (IF k = n THEN round + 1 ELSE round)
               /\ blocks' = Append(blocks, <<round', ev.s>>)
               /\ total' = ev.total /\ phase' = "join" /\ UNCHANGED <<n, limit, solved>>
               /\ Refined /\ Keep
Sliced == At("sliced") /\ Same /\ Saw /\ phase \in {"build", "join"} /\ ev.s = k - 1 /\ UNCHANGED pvars /\ Keep /\ NoSearch /\ Step
Multi  == At("multi") /\ Connect /\ Same /\ Saw /\ Graph /\ Keep /\ NoSearch /\ Step
Joined == At("joined") /\ Same /\ Saw /\ UNCHANGED pvars /\ Keep /\ NoSearch /\ Step
Exist  == At("exist") /\ JoinEarlier(ev.s) /\ Same /\ Saw /\ Graph /\ Keep /\ NoSearch /\ Step
Existed == At("existed") /\ Same /\ Saw /\ UNCHANGED pvars /\ Keep /\ NoSearch /\ Step
Look == /\ (At("nns") \/ At("nng")) /\ phase = "search" /\ Same /\ Saw /\ ev.s = beg.k1
        /\ nn' = nn + 1 /\ searches' = searches + (IF nn = 0 THEN 1 ELSE 0)
        /\ UNCHANGED <<pvars, beg>> /\ Step
Result == /\ At("result") /\ phase = "search" /\ nn > 0 /\ Same /\ Saw /\ Graph
          /\ Answer
          /\ ev.solved \/ ev.total \succeq limit
          /\ ev.total \succeq (ev.spent \ominus Tol)
          /\ phase' = "ended" /\ solved' = ev.solved /\ total' = ev.total
          /\ UNCHANGED <<n, limit, k, round, blocks>> /\ Keep /\ NoSearch /\ Step
Ended == /\ At("end") /\ phase = "ended" /\ ev.solved = solved
         /\ ev.build \succeq 0 /\ ev.search \succeq 0
         /\ (RAbs(ev.total \ominus (ev.build \oplus ev.search)) \preceq R("1e-9"))
         /\ REq(ev.total, total)
         /\ ev.build \succeq (ev.slept \ominus Tol)          \* all construction is counted
         /\ ev.search \succeq (ev.looked \ominus Tol)       \* all searching too
         /\ ev.total \preceq (ev.wall \oplus Tol)            \* and nothing twice
         /\ solved => ev.path # <<>> /\ ev.nsol = Len(ev.path) + 2
         /\ ~solved => ev.path = <<>> /\ ev.nsol = 0 /\ ev.nint = 0
         /\ UNCHANGED <<pvars, seen>> /\ Keep /\ NoSearch /\ Step
Done == i > Len(Trace) /\ UNCHANGED vars
Next == \/ Begin \/ Sampled \/ Slice \/ Sliced \/ Multi \/ Joined \/ Exist \/ Existed \/ Look \/ Result \/ Ended \/ Done
(* what PlannerMC proves of the model holds along the recorded lives too *)
OnceInOrder == n > 0 => \A j \in 1..Len(blocks) : blocks[j] = << (j - 1) \div n, (j - 1) % n >>
=============================================================================
