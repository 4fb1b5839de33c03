----------------------------- MODULE OmplAnswers -----------------------------
(* What a sampling-based planner must report for one query Q of a history       *)
(* (see Query): Q.s, Q.g its ends, Q.exact: a path to the goal is known, Q.solved, Q.path, Q.interp, and the lists    *)
(* and numbers of its exploration.                                               *)
EXTENDS RealNum
(* the way goes through all points of the path, on straight segments *)
RECURSIVE Along(_, _, _, _, _)
(* at[b][a]: way point b is path point a; X, Y: their positions *)
Along(X, Y, at, a, b) ==
    IF b > Len(Y) THEN a = Len(X)
    ELSE IF a < Len(X) /\ at[b][a + 1] THEN Along(X, Y, at, a + 1, b + 1)
    ELSE IF at[b][a] THEN Along(X, Y, at, a, b + 1)
    ELSE /\ a < Len(X)
         /\ (Dist(X[a], Y[b]) \oplus Dist(Y[b], X[a + 1])) \preceq (Dist(X[a], X[a + 1]) \oplus R("1e-6"))
         /\ Along(X, Y, at, a, b + 1)
(* an interpolated path has at least this many poses *)
Fine == 50
(* entries of a list next to the closest ones of another list *)
Alike(L) == \A k \in 1..Len(L) : Len(L[k]) = 2 /\ Len(L[k][1]) = Len(L[k][2]) /\ VNear(L[k][1], L[k][2], R("1e-9"))
Answers(Q, same(_, _), pos(_), clear(_), passable(_)) ==
    /\ Q.solved => /\ Len(Q.path) >= 1 /\ Len(Q.interp) >= Len(Q.path) /\ Len(Q.interp) >= Fine
                   /\ same(Q.path[1], Q.s) /\ same(Q.path[Len(Q.path)], Q.g)
                   /\ \A k \in 1..Len(Q.path) : clear(Q.path[k])
                   /\ same(Q.interp[1], Q.s) /\ same(Q.interp[Len(Q.interp)], Q.g)
                   /\ \A k \in 1..Len(Q.interp) : passable(Q.interp[k])
                   /\ Along([k \in 1..Len(Q.path) |-> pos(Q.path[k])], [k \in 1..Len(Q.interp) |-> pos(Q.interp[k])],
                            [h \in 1..Len(Q.interp) |-> [k \in 1..Len(Q.path) |-> same(Q.interp[h], Q.path[k])]], 1, 2)
    /\ ~Q.solved => Q.path = <<>> /\ Q.interp = <<>>
    /\ Q.solved = (Q.exact /\ Q.time \prec Q.limit)
    /\ Q.nv = Q.v /\ Q.ne = Len(Q.e)
    /\ \A k \in 1..Len(Q.e) : Q.e[k][1] \in 0..(Q.v - 1) /\ Q.e[k][2] \in 0..(Q.v - 1)
    \* the lists are those of the exploration: nothing added, nothing left out
    /\ Q.v = Q.known /\ Q.ne = Q.joined
    /\ Alike(Q.some) /\ Alike(Q.there) /\ Alike(Q.some2) /\ Alike(Q.there2)
(* The numbers Q reported with an answer, next to those counted from outside:   *)
(* Q.all motions were checked for it and Q.good of them found free.              *)
Algorithms == <<"PRM", "LazyPRM", "RRT", "RRTConnect", "EST", "SBL", "KPIECE1">>
Samplers   == <<"uniform", "gaussian", "obstacle_based", "max_clearance", "bridge_test">>
(* Q.took: time the search took, Q.spent: all of the query, both from outside    *)
Figures(Q, share) ==
    /\ Q.length = Q.path
    /\ (R("0.9") \otimes Q.took) \preceq Q.time /\ Q.time \preceq (Q.spent \oplus R("1e-3"))
    /\ Q.checks = Q.all /\ Q.valid = Q.good
    /\ Q.percent \preceq 1 /\ Q.percent \succeq 0 /\ Near(Q.percent, share, R("0.12"))
AsRequested(x) == x.algname = Algorithms[x.alg + 1] /\ x.smpname = Samplers[x.smp + 1]
Clamp(x, lo, hi) == RMax(lo, RMin(hi, x))
=============================================================================
