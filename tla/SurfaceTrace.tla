---------------------------- MODULE SurfaceTrace -----------------------------
(* B03: sampled boundaries and meshes.                                         *)
EXTENDS RecTree, Curve
TolR == R("1e-6")
Plane == r.k = "bound2" =>
    /\ Len(r.pts) = r.n
    /\ \A k \in 1..r.n : Near(Radial2(r.body, r.pts[k]), 1, TolR)
    /\ OnceAround(r.pts, TolR \otimes Size2(r.body))
Space == r.k = "bound3" =>
    /\ Len(r.pts) = r.n * r.n
    /\ \A k \in 1..Len(r.pts) : Near(Radial3(r.body, r.pts[k]), 1, TolR)
    /\ \A n \in Dirs3 : (Sup3(r.body, n) \ominus SupPts(r.pts, n)) \preceq GridStep(r.pts, r.n)
Mesh == r.k = "mesh" =>
    /\ Len(r.v) = r.n * r.n /\ \A k \in 1..Len(r.v) : VNear(r.v[k], r.pts[k], R("1e-12") \otimes RMax(1, Norm(r.pts[k])))
    /\ GridMesh(r.f, r.n)
(* the mesh has no hole: whoever looks at it from outside sees a triangle with *)
(* all vertices on its other side                                             *)
Views == { Unit(<<R("0.91"), R("0.31"), R("0.17")>>), Unit(<<R("-0.37"), R("0.83"), R("0.29")>>), Unit(<<R("0.23"), R("-0.41"), R("0.79")>>),
           Unit(<<R("-0.67"), R("-0.59"), R("0.43")>>), Unit(<<R("0.53"), R("-0.71"), R("-0.61")>>), Unit(<<R("-0.73"), R("0.47"), R("-0.51")>>),
           Unit(<<R("0.13"), R("0.19"), R("-0.97")>>), Unit(<<R("-0.99"), R("-0.11"), R("-0.21")>>), Unit(<<R("0.57"), R("0.61"), R("0.59")>>) }
Closed(d) ==
    LET o == <<R(0), R(0), R(0)>>
        at(k) == r.v[k + 1]
        hit == [k \in 1..Len(r.f) |-> TriParam(o, d, at(r.f[k][1]), at(r.f[k][2]), at(r.f[k][3]), R("1e-9"))] \o <<>>
        T == { k \in 1..Len(r.f) : hit[k] # {} }
        t(k) == CHOOSE x \in hit[k] : TRUE
        Last == { k \in T : \A w \in T : t(w) \preceq (t(k) \oplus (R("1e-6") \otimes Size3(r.body))) }
        Outside(k) == LET n0 == Unit(Cross(VSub(at(r.f[k][2]), at(r.f[k][1])), VSub(at(r.f[k][3]), at(r.f[k][1]))))
                          n == IF Dot(n0, d) \prec 0 THEN VScale(-1, n0) ELSE n0
                      IN  (SupPts(r.v, n) \ominus Dot(n, at(r.f[k][1]))) \preceq (R("1e-3") \otimes Size3(r.body))
    IN  T # {} /\ \E k \in Last : Outside(k)
CollisionMesh == r.k = "cmesh" =>
    /\ Len(r.v) >= 4 /\ Len(r.f) >= 4
    /\ \A k \in 1..Len(r.v) : Near(Radial3(r.body, r.v[k]), 1, TolR)
    /\ \A k \in 1..Len(r.f) : \A j \in 1..3 : r.f[k][j] \in 0..(Len(r.v) - 1)
    /\ \A n \in Dirs3 : (Sup3(r.body, n) \ominus SupPts(r.v, n)) \preceq (2 \otimes GridStep(r.v, r.n))
    /\ \A d \in Views : Closed(d)
=============================================================================
