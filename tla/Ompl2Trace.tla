----------------------------- MODULE Ompl2Trace ------------------------------
(* Sampling-based planners in the plane, as recorded. *)
EXTENDS Plan2Trace, OmplAnswers
Coarse(o)  == ~Near(o[3], 1, R("1e-6"))
Free2(o)   == R(IF Coarse(o) THEN "0.02" ELSE "1e-3") \otimes Size2(o)
Into2(o)   == R(IF Coarse(o) THEN "-0.15" ELSE "-1e-3") \otimes Size2(o)
Depth(c)   == [o \in 1..Len(r.obs) |-> RMinSeq([b \in 1..Len(r.bodies) |-> Gap2(r.obs[o], BodyAt(r.bodies[b], c))])]
(* E01 *)
Accepted == r.k = "valid2" =>
    \A j \in 1..Len(r.c) :
        /\ (\A o \in 1..Len(r.obs), b \in 1..Len(r.bodies) : Gap2(r.obs[o], BodyAt(r.bodies[b], r.c[j])) \succ Free2(r.obs[o])) => r.ok[j]
        /\ (\E o \in 1..Len(r.obs), b \in 1..Len(r.bodies) : Gap2(r.obs[o], BodyAt(r.bodies[b], r.c[j])) \prec Into2(r.obs[o])) => ~r.ok[j]
Converted == r.k = "valid2" =>
    \A j \in 1..Len(r.given) :
        LET x == r.given[j]
            y == r.got[j]
        IN  /\ Len(y) = 3
            /\ \A c \in 1..2 : Near(y[c], Clamp(x[c], r.lo[c], r.hi[c]), R("1e-9"))
            /\ Wrapped(x[3] \ominus y[3]) \preceq R("1e-9") /\ RAbs(y[3]) \preceq R("3.1415926536")
(* E02 *)
Reach2 == RMaxSeq([b \in 1..Len(r.bodies) |-> Size2(r.bodies[b]) \oplus (IF b = 1 THEN 0 ELSE Norm(SubSeq(r.bodies[b], 4, 5)))])
Step2  == (R("0.005") \otimes Dist(r.lo, r.hi)) \oplus (R("0.016") \otimes Reach2)
Same2(x, y) == VNear(SubSeq(x, 1, 2), SubSeq(y, 1, 2), R("1e-6")) /\ Wrapped(x[3] \ominus y[3]) \preceq R("1e-6")
Clear2(c, slack) == \A o \in 1..Len(r.obs), b \in 1..Len(r.bodies) : Gap2(r.obs[o], BodyAt(r.bodies[b], c)) \succeq (Into2(r.obs[o]) \ominus slack)
Told == r.k = "query2" =>
    \A j \in 1..Len(r.q) : Answers(r.q[j], Same2, LAMBDA x : SubSeq(x, 1, 2), LAMBDA c : Clear2(c, R(0)), LAMBDA c : Clear2(c, Step2))
(* E03 *)
Counted == r.k = "figures2" => AsRequested(r) /\ \A j \in 1..Len(r.q) : Figures(r.q[j], r.share)
=============================================================================
