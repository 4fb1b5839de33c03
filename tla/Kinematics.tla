----------------------------- MODULE Kinematics ------------------------------
(* Forward kinematics of a robot description: joint J[b] moves body b relative  *)
(* to its parent (0 is the base); J[b].q is its place among the movable joints, *)
(* 0 for a fixed one.                                                           *)
EXTENDS Poses
Origin(j) == j.pos \o Rpy(j.rpy)
Value(j, q) == IF j.q = 0 THEN 0 ELSE q[j.q]
Move(j, v) == IF j.type = "prismatic" THEN VScale(v, j.axis) \o <<1, 0, 0, 0>>
              ELSE IF j.type = "fixed" THEN Id3
              ELSE <<0, 0, 0>> \o AxisTurn(j.axis, v)
(* pose of the frame of body b relative to the base *)
RECURSIVE Frame(_, _, _)
Frame(J, b, q) == IF b = 0 THEN Id3
                  ELSE After3(Frame(J, J[b].parent, q), After3(Origin(J[b]), Move(J[b], Value(J[b], q))))
=============================================================================
