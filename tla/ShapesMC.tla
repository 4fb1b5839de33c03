------------------------------ MODULE ShapesMC ------------------------------
(* The accelerated support functions are those of Shapes, and separation and  *)
(* containment measures have their closed-form values where those are known.  *)
EXTENDS Poses, TLC
VARIABLES s, n
H == R("0.70710678118654752440")
(* every component as a real *)
Re(t) == [k \in 1..Len(t) |-> R(0) \oplus t[k]]
Quats == << <<1, 0, 0, 0>>, <<H, 0, H, 0>>, <<R("0.5"), R("0.5"), R("-0.5"), R("0.5")>> >>
Flat == { Re(<<a, 2, e, x, 1, t>>) : a \in {1, 3}, e \in {R("0.3"), R("1"), R("1.7")}, x \in {0, -2}, t \in {0, 1, -2} }
Solid == { Re(<<a, 2, 4, e1, e2, x, 1, 3>> \o Quats[q]) : a \in {1, 3}, e1 \in {R("0.3"), R("1")}, e2 \in {R("1"), R("1.6")},
           x \in {0, -2}, q \in 1..3 }
Init == \/ s \in Flat /\ n \in { Unit(d) : d \in {<<1,0>>, <<0,1>>, <<-1,2>>, <<3,1>>, <<-1,-1>>} }
        \/ s \in Solid /\ n \in Dirs3
Next == UNCHANGED <<s, n>>
Small == R("1e-9")
Agree == IF Len(s) = 6 THEN Near(Sup2(s, n), SupportTwo(s, n), Small) ELSE Near(Sup3(s, n), SupportThree(s, n), Small)
(* the body moved by d along n is separated by d minus its width there, or less in depth *)
Width == IF Len(s) = 6 THEN Sup2(s, n) \oplus Sup2(s, VScale(-1, n)) ELSE Sup3(s, n) \oplus Sup3(s, VScale(-1, n))
Moved(d) == IF Len(s) = 6 THEN At2(s, VAdd(SubSeq(s, 4, 5), VScale(d, n))) ELSE At3(s, VAdd(Pos(s), VScale(d, n)))
Apart(t) == IF Len(s) = 6 THEN Gap2(s, t) ELSE Gap3(s, t)
Rooms(t) == IF Len(s) = 6 THEN Room2(s, t) ELSE Room3(s, t)
Separation == /\ Apart(Moved(20)) \succeq ((20 \ominus Width) \ominus Small)
              /\ Apart(Moved(20)) \preceq 20
              /\ Apart(s) \prec 0
              /\ Near(Apart(Moved(20)), IF Len(s) = 6 THEN Gap2(Moved(20), s) ELSE Gap3(Moved(20), s), R("1e-6"))
Containment == /\ Near(Rooms(s), 0, Small)
               /\ Near(Rooms(Moved(1)), -1, R("1e-6"))
Balls == Len(s) = 6 =>
    LET c(x, rad) == <<rad, rad, 1, x, 0, 0>>
        b(x, rad) == <<rad, rad, rad, 1, 1, x, 0, 0, 1, 0, 0, 0>>
    IN  /\ \A d \in 1..4 : Near(Gap2(c(0, 1), c(d, 2)), d - 3, R("1e-6")) /\ Near(Gap3(b(0, 1), b(d, 2)), d - 3, R("1e-6"))
                        /\ Near(Room2(c(0, 5), c(d, 2)), 3 - d, R("1e-6")) /\ Near(Room3(b(0, 5), b(d, 2)), 3 - d, R("1e-6"))
(* rotations *)
Rotations == Len(s) = 12 =>
    LET q == Quat(s)
        p == AxisTurn(n, R("0.8"))
    IN  /\ Near(QAngle(q, QMul(q, p)), R("0.8"), Small)
        /\ VNear(QRot(QMul(p, q), n), QRot(p, QRot(q, n)), Small)
        /\ VNear(QRot(p, n), n, Small)
        /\ QNear(SlerpRaw(q, QMul(q, p), R("0.25")), QMul(q, AxisTurn(n, R("0.2"))), Small)
        /\ SamePose3(After3(Pos(s) \o q, After3(Pos(s) \o QConj(q), n \o p)), After3(After3(Pos(s) \o q, Pos(s) \o QConj(q)), n \o p), Small)
=============================================================================
