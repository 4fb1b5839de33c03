------------------------------ MODULE MinkTrace ------------------------------
(* B01: contact positions of an ellipse/ellipsoid around (K = 1) or inside    *)
(* (K = -1) a body.                                                            *)
EXTENDS RecTree, Curve
Tol2 == R("1e-6") \otimes (Size2(r.body) \oplus Size2(r.ell))
Tol3 == R("1e-6") \otimes (Size3(r.body) \oplus Size3(r.ell))
Finite(P) == \A k \in 1..Len(P) : \A j \in 1..Len(P[k]) : IsFiniteReal(P[k][j])
Plane == r.k = "mink2" =>
    /\ Finite(r.pts)
    /\ \A k \in 1..Len(r.pts) :
        IF r.K = 1 THEN Near(Gap2(r.body, At2(r.ell, r.pts[k])), 0, Tol2)
        ELSE Near(Room2(r.body, At2(r.ell, r.pts[k])), 0, Tol2)
    /\ OnceAround(r.pts, Tol2)
(* the contact surface has support h_body(n) + h_ell(-n) around the body's frame *)
Reach(n) == IF r.K = 1 THEN Sup3(r.body, n) \oplus Sup3(At3(r.ell, <<0,0,0>>), VScale(-1, n))
            ELSE Sup3(r.body, n) \ominus Sup3(At3(r.ell, <<0,0,0>>), n)
Space == r.k = "mink3" =>
    /\ Len(r.pts) = r.n * r.n
    /\ Finite(r.pts)
    /\ \A k \in 1..Len(r.pts) :
        IF r.K = 1 THEN Near(Gap3(r.body, At3(r.ell, r.pts[k])), 0, Tol3)
        ELSE Near(Room3(r.body, At3(r.ell, r.pts[k])), 0, Tol3)
    /\ \A n \in Dirs3 : (Reach(n) \ominus SupPts(r.pts, n)) \preceq GridStep(r.pts, r.n)
=============================================================================
