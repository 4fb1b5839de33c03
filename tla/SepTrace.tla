------------------------------- MODULE SepTrace -------------------------------
(* B07: separation and collision tests against the separation of the shapes.   *)
EXTENDS RecTree, Poses
Sep2 == r.k = "sep2" =>
    LET g == Gap2(r.a, r.b)
        tol == R("1e-3") \otimes RMin(Size2(r.a), Size2(r.b))
    IN  /\ r.ab = r.ba \/ RAbs(g) \preceq tol
        /\ g \succ tol => (r.ab /\ r.ba)
        /\ g \prec RNeg(tol) => ~(r.ab \/ r.ba)
Sep3 == r.k = "sep3" =>
    LET g == Gap3(r.a, r.b)
        tol == R("1e-3") \otimes RMin(Size3(r.a), Size3(r.b))
    IN  /\ r.ab = r.ba \/ RAbs(g) \preceq tol
        /\ g \succ tol => (r.ab /\ r.ba)
        /\ g \prec RNeg(tol) => ~(r.ab \/ r.ba)
(* the body o is collided as the hull of sampled points (given in its frame), *)
(* unless it is an ellipsoid itself; between the hull and the body both answers *)
(* are right                                                                    *)
Hull(o, pts) == [k \in 1..Len(pts) |-> VAdd(Pos(o), QRot(Quat(o), pts[k]))]
Col3 == r.k = "col3" =>
    \A h \in 1..Len(r.o) :
        LET g == IF r.round THEN Gap3(r.e[h], r.o[h]) ELSE GapHull3(r.e[h], Hull(r.o[h], r.pts))
            tol == R("1e-2") \otimes Size3(r.o[h])
        IN  /\ (g \succ tol /\ (r.round \/ ~(r.ab[h] \/ r.ba[h]) \/ Gap3(r.e[h], r.o[h]) \succ tol)) => ~(r.ab[h] \/ r.ba[h])
            /\ g \prec RNeg(tol) => (r.ab[h] /\ r.ba[h])
(* in the plane the body is sampled coarsely *)
Col2 == r.k = "col2" =>
    \A h \in 1..Len(r.o) :
        LET g == Gap2(r.e[h], r.o[h])
            s == Size2(r.o[h])
        IN  /\ g \succ (R("0.02") \otimes s) => ~(r.ab[h] \/ r.ba[h])
            /\ g \prec (R(IF r.round THEN "-0.02" ELSE "-0.15") \otimes s) => (r.ab[h] /\ r.ba[h])
=============================================================================
