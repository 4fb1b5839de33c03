----------------------------- MODULE Ompl3Trace ------------------------------
(* Sampling-based planners in space, rigid and articulated, as recorded. *)
EXTENDS Plan3Trace, OmplAnswers
Tol3(o)  == R("1e-2") \otimes Size3(r.obs[o])
Hulls    == Now([o \in 1..Len(r.obs) |-> IF IsRound(r.obs[o]) THEN <<>> ELSE Now(Hull(o))])
Apart3(o, b) == IF IsRound(r.obs[o]) THEN Gap3(r.obs[o], b) ELSE GapHull3(b, Hulls[o])
(* E01 *)
Accepted == r.k = "valid3" =>
    \A j \in 1..Len(r.c) :
        /\ (\A o \in 1..Len(r.obs), b \in 1..Len(r.bodies) : Apart3(o, BodyAt(b, r.c[j])) \succ Tol3(o)) =>
              \* between an obstacle and its mesh both answers are right
              (r.ok[j] \/ \E o \in 1..Len(r.obs), b \in 1..Len(r.bodies) : Gap3(r.obs[o], BodyAt(b, r.c[j])) \preceq Tol3(o))
        /\ (\E o \in 1..Len(r.obs), b \in 1..Len(r.bodies) : Apart3(o, BodyAt(b, r.c[j])) \prec RNeg(Tol3(o))) => ~r.ok[j]
Quarter == R("1.5707963267948966")
Converted == r.k = "valid3" =>
    \A j \in 1..Len(r.given) :
        LET x == r.given[j]
            y == r.got[j]
        IN  /\ Len(y) = 7 + r.dof
            /\ \A c \in 1..3 : Near(y[c], Clamp(x[c], r.lo[c], r.hi[c]), R("1e-9"))
            /\ QNear(SubSeq(y, 4, 7), Unit(SubSeq(x, 4, 7)), R("1e-9"))
            /\ \A c \in 8..(7 + r.dof) : Near(y[c], Clamp(x[c], RNeg(Quarter), Quarter), R("1e-6"))
(* E02 *)
Reach3 == RSum([b \in 1..Len(r.bodies) |-> Size3(r.bodies[b]) \oplus (IF b = 1 THEN 0 ELSE IF r.joints = <<>> THEN Norm(Pos(r.bodies[b]))
                ELSE Norm(SubSeq(r.off[b - 1], 1, 3)) \oplus Norm(r.joints[b - 1].pos))])
Step3  == (R("0.005") \otimes Dist(r.lo, r.hi)) \oplus ((R("0.016") \otimes (1 \oplus r.dof)) \otimes Reach3)
Same3(x, y) == VNear(SubSeq(x, 1, 3), SubSeq(y, 1, 3), R("1e-6")) /\ QNear(SubSeq(x, 4, 7), SubSeq(y, 4, 7), R("1e-6"))
               /\ VNear(SubSeq(x, 8, Len(x)), SubSeq(y, 8, Len(y)), R("1e-6"))
Clear3(c, slack) == \A o \in 1..Len(r.obs), b \in 1..Len(r.bodies) : Apart3(o, BodyAt(b, c)) \succeq RNeg(Tol3(o) \oplus slack)
Told == r.k = "query3" =>
    \A j \in 1..Len(r.q) : Answers(r.q[j], Same3, LAMBDA x : SubSeq(x, 1, 3), LAMBDA c : Clear3(c, R(0)), LAMBDA c : Clear3(c, Step3))
(* E03 *)
Counted == r.k = "figures3" => AsRequested(r) /\ \A j \in 1..Len(r.q) : Figures(r.q[j], r.share)
=============================================================================
