-------------------------------- MODULE Poses --------------------------------
(* Rigid motions. Pose2 == <<x, y, angle>>, Pose3 == <<x, y, z, w, i, j, k>>   *)
(* (a unit quaternion up to sign).                                             *)
EXTENDS Shapes
Id2 == <<0, 0, 0>>
Id3 == <<0, 0, 0, 1, 0, 0, 0>>
Xyz(p) == SubSeq(p, 1, 3)
Rot(p) == SubSeq(p, 4, 7)
Turn(th, v) == << (RCos(th) \otimes v[1]) \ominus (RSin(th) \otimes v[2]),
                  (RSin(th) \otimes v[1]) \oplus (RCos(th) \otimes v[2]) >>
After2(p, q) == VAdd(SubSeq(p, 1, 2), Turn(p[3], SubSeq(q, 1, 2))) \o << p[3] \oplus q[3] >>
After3(p, q) == VAdd(Xyz(p), QRot(Rot(p), Xyz(q))) \o QMul(Rot(p), Rot(q))

Wrapped(a)   == RAbs(RAtan2(RSin(a), RCos(a)))                \* distance to a multiple of 2 pi
SamePose2(p, q, tol) == Near(p[1], q[1], tol) /\ Near(p[2], q[2], tol) /\ Wrapped(p[3] \ominus q[3]) \preceq tol
SamePose3(p, q, tol) == VNear(Xyz(p), Xyz(q), tol) /\ QNear(Rot(p), Rot(q), tol)

(* a body at a pose; pose of a body *)
PoseOf2(s)   == << s[4], s[5], s[6] >>
PoseOf3(s)   == SubSeq(s, 6, 12)
SameShape2(s, t) == VNear(SubSeq(s, 1, 3), SubSeq(t, 1, 3), 0)
SameShape3(s, t) == VNear(SubSeq(s, 1, 5), SubSeq(t, 1, 5), 0)
Place2(s, p) == SubSeq(s, 1, 3) \o p
Place3(s, p) == SubSeq(s, 1, 5) \o p

(* rotations: the angle between two orientations, turning about an axis, and  *)
(* the constant-rate turn from p to q                                         *)
QAngle(p, q) == LET d == QMul(QConj(p), q)
                IN  2 \otimes RAtan2(Norm(SubSeq(d, 2, 4)), RAbs(d[1]))
AxisTurn(ax, th) == LET s == RSin(th \oslash 2) \oslash Norm(ax)
                    IN  << RCos(th \oslash 2), s \otimes ax[1], s \otimes ax[2], s \otimes ax[3] >>
Rpy(a)       == QMul(AxisTurn(<<0,0,1>>, a[3]), QMul(AxisTurn(<<0,1,0>>, a[2]), AxisTurn(<<1,0,0>>, a[1])))
SlerpRaw(p, q, t) ==      \* along the arc on which p.q has the sign it has
    LET w == RAcos(RMin(1, RMax(-1, Dot(p, q))))
    IN  IF RAbs(RSin(w)) \prec R("1e-9") THEN p
        ELSE VAdd(VScale(RSin((1 \ominus t) \otimes w) \oslash RSin(w), p), VScale(RSin(t \otimes w) \oslash RSin(w), q))
(* the shortest rotations from p to q (two of them at half a turn) *)
Arcs(p, q)   == LET c == Dot(p, q)
                IN  IF RAbs(c) \prec R("1e-7") THEN {q, VScale(-1, q)} ELSE IF c \prec 0 THEN {VScale(-1, q)} ELSE {q}
=============================================================================
