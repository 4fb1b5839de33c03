------------------------------ MODULE LineTrace -----------------------------
(* A03: what the line intersection functions returned, against the section   *)
(* of the body by the line.                                                  *)
EXTENDS RecTree, Convex

(* a reported pair of x against the section of a polygon, exact up to rounding *)
Same2(sec, hit, tol) ==
    /\ Len(hit) = (IF sec = <<>> THEN 0 ELSE 2)
    /\ sec # <<>> => /\ Near(RMin(hit[1], hit[2]), sec[1], tol)
                     /\ Near(RMax(hit[1], hit[2]), sec[2], tol)
PolyOk == r.k = "poly" =>
    /\ Len(r.hits) = Len(r.ty)
    /\ \A j \in 1..Len(r.ty) : Same2(Section(r.poly, r.ty[j]), r.hits[j], r.tol)

At(o, d, t) == VAdd(o, VScale(t, d))
Same3(sec, hit, o, d, tol) ==
    /\ Len(hit) = (IF sec = <<>> THEN 0 ELSE 2)
    /\ sec # <<>> =>
         LET a == At(o, d, sec[1])
             b == At(o, d, sec[2])
         IN  \/ VNear(hit[1], a, tol) /\ VNear(hit[2], b, tol)
             \/ VNear(hit[1], b, tol) /\ VNear(hit[2], a, tol)
(* every line meets or misses a lattice solid exactly *)
SolidOk == r.k = "solid" =>
    \A j \in 1..Len(r.lines) :
        LET o == SubSeq(r.lines[j], 1, 3)
            d == SubSeq(r.lines[j], 4, 6)
            sec == PolyhedronSection(r.v, r.f, o, d)
        IN  Same3(sec, r.hits[j], o, d, R("1e-9"))

(* surfaces: exact where the line crosses the body for a noticeable length   *)
(* or clearly misses it                                                      *)
MeshHitOk(V, F, line, hit, size, tol) ==
    LET o == SubSeq(line, 1, 3)
        d == SubSeq(line, 4, 6)
        sec == MeshSection(line, V, F, R("1e-9"))
        len == IF sec = <<>> THEN 0 ELSE (sec[2] \ominus sec[1]) \otimes Norm(d)
    IN  IF sec = <<>> THEN hit = <<>>
        ELSE IF len \succ (R("1e-3") \otimes size) THEN Same3(sec, hit, o, d, tol \otimes size)
        ELSE TRUE
MeshOk == r.k = "mesh" =>
    \A j \in 1..Len(r.lines) : MeshHitOk(r.v, r.f, r.lines[j], r.hits[j], r.size, r.tols[j])
=============================================================================
