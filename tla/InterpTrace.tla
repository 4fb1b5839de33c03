----------------------------- MODULE InterpTrace -----------------------------
(* B06: interpolated motions.                                                  *)
EXTENDS RecTree, Poses
Tol == R("1e-6")
Steps == IF r.n = 0 THEN 1 ELSE r.n
Frac(j) == j \oslash Steps
Linear(a, b, res) == \A j \in 0..Steps : VNear(res[j + 1], VAdd(a, VScale(Frac(j), VSub(b, a))), R("1e-9"))
Turning(a, b, res) ==
    LET T == QAngle(a, b)
    IN  /\ \A j \in 1..Len(res) : Near(Norm(res[j]), 1, R("1e-9"))
        /\ QNear(res[1], a, Tol) /\ QNear(res[Len(res)], b, Tol)
        /\ \A j \in 0..Steps : /\ Near(QAngle(a, res[j + 1]), Frac(j) \otimes T, Tol)
                               /\ Near(QAngle(res[j + 1], b), (1 \ominus Frac(j)) \otimes T, Tol)
        /\ \A j \in 1..Steps : Near(QAngle(res[j], res[j + 1]), T \oslash Steps, Tol)
Part(res, lo, hi) == [j \in 1..Len(res) |-> SubSeq(res[j], lo, hi)]
Rigid == r.k \in {"se3", "compound"} =>
    /\ Len(r.res) = Steps + 1
    /\ \A j \in 1..Len(r.res) : Len(r.res[j]) = Len(r.a)
    /\ Linear(SubSeq(r.a, 1, 3), SubSeq(r.b, 1, 3), Part(r.res, 1, 3))
    /\ Turning(SubSeq(r.a, 4, 7), SubSeq(r.b, 4, 7), Part(r.res, 4, 7))
    /\ Linear(SubSeq(r.a, 8, Len(r.a)), SubSeq(r.b, 8, Len(r.a)), Part(r.res, 8, Len(r.a)))
Rotation == r.k = "rot" => Len(r.res) = r.n + 1 /\ Turning(r.a, r.b, r.res)
Vector == r.k = "rn" => Len(r.res) = r.n + 1 /\ Linear(r.a, r.b, r.res)
=============================================================================
