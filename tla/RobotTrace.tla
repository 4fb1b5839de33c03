------------------------------ MODULE RobotTrace ------------------------------
(* B04: the rules of RigidRobot with real poses.                               *)
EXTENDS RecTree, Poses
Tol == R("1e-8")
(* the pose of the last transform among the first k operations, or the given one *)
RECURSIVE LastPose(_, _, _)
LastPose(poses, k, id) == IF k = 0 THEN id ELSE IF poses[k] # <<>> THEN poses[k] ELSE LastPose(poses, k - 1, id)
Moved(poses, k) == \E j \in 1..k : poses[j] # <<>>
Plane == r.k = "rigid2" =>
    /\ Len(r.seen) = Len(r.poses) + 1
    /\ \A k \in 1..Len(r.seen) :
        LET B == r.seen[k]
            p == LastPose(r.poses, k - 1, PoseOf2(r.init[1]))
            l == IF Moved(r.poses, k - 1) THEN p ELSE Id2
        IN  /\ Len(B) = Len(r.init)
            /\ \A j \in 1..Len(B) : SameShape2(B[j], r.init[j])
            /\ SamePose2(PoseOf2(B[1]), p, Tol)
            /\ \A j \in 2..Len(B) : SamePose2(PoseOf2(B[j]), After2(l, r.off[j - 1]), Tol)
Space == r.k = "rigid3" =>
    /\ Len(r.seen) = Len(r.poses) + 1
    /\ \A k \in 1..Len(r.seen) :
        LET B == r.seen[k]
            p == LastPose(r.poses, k - 1, PoseOf3(r.init[1]))
            l == IF Moved(r.poses, k - 1) THEN p ELSE Id3
        IN  /\ Len(B) = Len(r.init)
            /\ \A j \in 1..Len(B) : SameShape3(B[j], r.init[j])
            /\ SamePose3(PoseOf3(B[1]), p, Tol)
            /\ \A j \in 2..Len(B) : SamePose3(PoseOf3(B[j]), After3(l, r.off[j - 1]), Tol)
    /\ r.listed = r.seen[Len(r.seen)]
(* boundaries computed with the robot: base positions at which each body, posed *)
(* as it is relative to the base, touches the object                            *)
CTol(s) == R("1e-5") \otimes s
Contact2 == r.k = "msum2" =>
    /\ Len(r.mink) = Len(r.bodies)
    /\ \A j \in 1..Len(r.bodies) : \A k \in 1..Len(r.mink[j]) :
        LET off == VSub(SubSeq(r.bodies[j], 4, 5), SubSeq(r.bodies[1], 4, 5))
        IN  Near(Gap2(r.obj, At2(r.bodies[j], VAdd(r.mink[j][k], off))), 0, CTol(Size2(r.obj) \oplus Size2(r.bodies[j])))
Contact3 == r.k = "msum3" =>
    /\ Len(r.mink) = Len(r.bodies)
    /\ \A j \in 1..Len(r.bodies) : \A k \in 1..Len(r.mink[j]) :
        LET off == VSub(Pos(r.bodies[j]), Pos(r.bodies[1]))
        IN  Near(Gap3(r.obj, At3(r.bodies[j], VAdd(r.mink[j][k], off))), 0, CTol(Size3(r.obj) \oplus Size3(r.bodies[j])))
=============================================================================
