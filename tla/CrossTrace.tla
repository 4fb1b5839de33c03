----------------------------- MODULE CrossTrace -----------------------------
(* A04: which motions were reported as crossing a boundary.                  *)
EXTENDS RecTree, Convex

(* a segment between two points of the plane and a polygon, reported blocked *)
SegOk(P, a, b, blocked, m) ==
    /\ ((StrictlyOutside(P, a) \/ StrictlyOutside(P, b)) /\ MeetsInterior(P, a, b, m)) => blocked
    /\ (~Meets(P, a, b, m)) => ~blocked
Seg2Ok == r.k = "seg2" =>
    /\ Len(r.blocked) = Len(r.segs)
    /\ \A j \in 1..Len(r.segs) :
          SegOk(r.poly, << r.segs[j][1], r.segs[j][2] >>, << r.segs[j][3], r.segs[j][4] >>, r.blocked[j], r.m)

(* space: the chord of the line through a and b is the parameter interval    *)
(* [lo, hi]; the motion is the interval [0, 1] and crosses at lo, hi or both   *)
Passed(t, m) == t \succ m /\ t \prec (1 \ominus m)
Seg3OkBy(sec, inside, blocked, m) ==
    /\ (inside /\ (Passed(sec[1], m) \/ Passed(sec[2], m))) => blocked
    /\ (sec = <<>> \/ (sec # <<>> /\ (sec[1] \succ (1 \oplus m) \/ sec[2] \prec RNeg(m)))) => ~blocked
Seg3Ok == r.k = "seg3" =>
    \A j \in 1..Len(r.segs) :
        LET a == SubSeq(r.segs[j], 1, 3)
            d == VSub(SubSeq(r.segs[j], 4, 6), a)
            sec == PolyhedronSection(r.v, r.f, a, d)
        IN  Seg3OkBy(sec, LineInterior(r.v, r.f, a, d), r.blocked[j], R("1e-9"))
(* sampled surfaces: the chord must be noticeable *)
SegMeshOk == r.k = "segmesh" =>
    \A j \in 1..Len(r.segs) :
        LET a == SubSeq(r.segs[j], 1, 3)
            d == VSub(SubSeq(r.segs[j], 4, 6), a)
            sec == MeshSection(a \o d, r.v, r.f, R("1e-9"))
            len == IF sec = <<>> THEN 0 ELSE (sec[2] \ominus sec[1]) \otimes Norm(d)
        IN  Seg3OkBy(sec, len \succ (R("1e-3") \otimes r.size), r.blocked[j], R("1e-6"))
(* the planner's own test is the disjunction over its boundaries *)
PlanOk == r.k = "plan2" =>
    \A j \in 1..Len(r.segs) :
        LET a == << r.segs[j][1], r.segs[j][2] >>
            b == << r.segs[j][3], r.segs[j][4] >>
        IN  /\ (\E P \in {r.polys[q] : q \in 1..Len(r.polys)} :
                   (StrictlyOutside(P, a) \/ StrictlyOutside(P, b)) /\ MeetsInterior(P, a, b, r.m)) => ~r.free[j]
            /\ (\A q \in 1..Len(r.polys) : ~Meets(r.polys[q], a, b, r.m)) => r.free[j]
Plan3Ok == r.k = "plan3" =>
    \A j \in 1..Len(r.segs) :
        LET a == SubSeq(r.segs[j], 1, 3)
            d == VSub(SubSeq(r.segs[j], 4, 6), a)
            chord(M, s) == MeshSection(a \o d, M.v, r.fs[M.f], s)
            within(M) == LET c == chord(M, R("1e-9"))
                         IN  c # <<>> /\ ((c[2] \ominus c[1]) \otimes Norm(d)) \succ R("1e-2") /\ (Passed(c[1], R("1e-6")) \/ Passed(c[2], R("1e-6")))
            away(M) == LET c == chord(M, R("1e-6")) IN c = <<>> \/ c[1] \succ R("1.000001") \/ c[2] \prec R("-1e-6")
        IN  /\ (\E q \in 1..Len(r.meshes) : within(r.meshes[q])) => ~r.free[j]
            /\ (\A q \in 1..Len(r.meshes) : away(r.meshes[q])) => r.free[j]
=============================================================================
