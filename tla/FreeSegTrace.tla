---------------------------- MODULE FreeSegTrace ----------------------------
EXTENDS RecTree, Convex, FreeSeg
Missed(C, y) == (\A x \in 1..Len(C) : C[x] \succ (y \oplus r.tol)) \/ (\A x \in 1..Len(C) : C[x] \prec (y \ominus r.tol))
Plane == r.k = "fs2" =>
    /\ VNear(r.ty, r.rty, 0) /\ Len(r.xL) = Len(r.ty) /\ Len(r.xU) = Len(r.ty) /\ Len(r.xM) = Len(r.ty)
    /\ \A j \in 1..Len(r.ty) :
        LET S(P) == Section(P, r.ty[j])
        IN  LineOk([k \in 1..Len(r.arena) |-> S(r.arena[k])], [k \in 1..Len(r.obs) |-> S(r.obs[k])],
                   [k \in 1..Len(r.obs) |-> ~ThroughInside(r.obs[k], r.ty[j])],
                   \E k \in 1..Len(r.arena) : Missed([x \in 1..Len(r.arena[k]) |-> r.arena[k][x][2]], r.ty[j]),
                   r.lim[1], r.lim[2], r.xL[j], r.xU[j], r.xM[j], r.tol)
(* in space the line is vertical at (tx, ty[j]) *)
Space == r.k = "fs3" =>
    /\ VNear(r.ty, r.rty, 0) /\ Len(r.xL) = Len(r.ty) /\ Len(r.xU) = Len(r.ty) /\ Len(r.xM) = Len(r.ty)
    /\ \A j \in 1..Len(r.ty) :
        LET S(M) == MeshSection(<<r.tx, r.ty[j], 0, 0, 0, 1>>, M.v, M.f, R("1e-9"))
        IN  LineOk([k \in 1..Len(r.arena) |-> S(r.arena[k])], [k \in 1..Len(r.obs) |-> S(r.obs[k])],
                   [k \in 1..Len(r.obs) |-> FALSE],
                   \E k \in 1..Len(r.arena) : \/ Missed([x \in 1..Len(r.arena[k].v) |-> r.arena[k].v[x][1]], r.tx)
                                                \/ Missed([x \in 1..Len(r.arena[k].v) |-> r.arena[k].v[x][2]], r.ty[j]),
                   r.lim[1], r.lim[2], r.xL[j], r.xU[j], r.xM[j], r.tol)
(* neighbouring lines *)
Across == r.k \in {"fs2", "fs3"} =>
    \A j \in 1..(Len(r.ty) - 1) : Facing(r.xL[j], r.xU[j], r.xM[j], r.xL[j+1], r.xU[j+1], r.xM[j+1], r.tol)
=============================================================================
