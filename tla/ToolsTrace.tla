----------------------------- MODULE ToolsTrace ------------------------------
(* The Python tools: placement of robots, sampled surfaces, loaded tables.      *)
(* r.rows describe the bodies: size, exponents, position, orientation.           *)
EXTENDS RecTree, Kinematics
Tol == R("1e-6")
Off(j)  == PoseOf3(r.rows[j + 1])
Rel(j, q) == IF r.joints = <<>> THEN Off(j) ELSE After3(Frame(r.joints, j, q), Off(j))
Placed == r.k = "tool" =>
    \A h \in 1..Len(r.seen) :
        LET B == r.seen[h]
            p == r.poses[h]
        IN  /\ Len(B) = Len(r.rows)
            /\ \A j \in 1..Len(B) : VNear(SubSeq(B[j], 1, 5), SubSeq(r.rows[j], 1, 5), 0)
            /\ SamePose3(PoseOf3(B[1]), p, Tol)
            /\ \A j \in 2..Len(B) : SamePose3(PoseOf3(B[j]), After3(p, Rel(j - 1, r.q[h])), Tol)
(* points of the surface, n by n; they reach everywhere up to the sampling step:  *)
(* the extremes of the body along its axes are approached                         *)
Local(p) == QRot(QConj(Quat(r.body)), VSub(p, Pos(r.body)))

Reach(c, s) == \* along an axis, the worst parameter is half a step away
    LET e == RMax(r.body[4], r.body[5])
        f == RCos(Pi \oslash (r.n - 1))
        least == RPow(f, r.body[4]) \otimes RPow(f, r.body[5])
    IN  \E k \in 1..Len(r.pts) : (s \otimes Local(r.pts[k])[c]) \succeq ((least \ominus R("1e-6")) \otimes r.body[c])
Sampled == r.k = "sample" =>
    /\ r.moved \/ (VNear(SubSeq(r.body, 1, 8), SubSeq(r.row, 1, 8), R("1e-9")) /\ QNear(Quat(r.body), SubSeq(r.row, 9, 12), R("1e-9")))
    /\ Len(r.pts) = r.n * r.n
    /\ \A k \in 1..Len(r.pts) : Near(Radial3(r.body, r.pts[k]), 1, R("1e-5"))
    /\ Len(r.surf) = Len(r.pts) /\ \A k \in 1..Len(r.pts) : VNear(r.surf[k], r.pts[k], R("1e-12"))
    /\ r.n >= 5 => \A c \in 1..3 : Reach(c, 1) /\ Reach(c, -1)
Same(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k], R("1e-8") \otimes RAbs(y[k]))
Loaded == r.k = "tables" =>
    /\ Len(r.got) = Len(r.want)
    /\ \A t \in 1..Len(r.want) : /\ Len(r.got[t]) = Len(r.want[t])
                                 /\ \A k \in 1..Len(r.want[t]) : Same(r.got[t][k], r.want[t][k])
=============================================================================
