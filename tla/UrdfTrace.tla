------------------------------ MODULE UrdfTrace ------------------------------
(* B05: forward kinematics of a robot description.                             *)
EXTENDS RecTree, Kinematics
Tol == R("1e-7")
Fk == r.k = "urdf" =>
    /\ \A h \in 1..Len(r.seen) :
        LET B == r.seen[h]
            p == r.poses[h]
        IN  /\ Len(B) = Len(r.init)
            /\ \A j \in 1..Len(B) : SameShape3(B[j], r.init[j])
            /\ SamePose3(PoseOf3(B[1]), p, Tol)
            /\ \A j \in 2..Len(B) :
                SamePose3(PoseOf3(B[j]), After3(p, After3(Frame(r.joints, j - 1, r.q[h]), r.off[j - 1])), Tol)
    (* moved as a rigid robot in between *)
    /\ Len(r.rigid) = Len(r.rigidSeen)
    /\ \A h \in 1..Len(r.rigid) :
        LET B == r.rigidSeen[h]
            p == r.rigid[h]
        IN  /\ Len(B) = Len(r.init)
            /\ SamePose3(PoseOf3(B[1]), p, Tol)
            /\ \A j \in 2..Len(B) : SamePose3(PoseOf3(B[j]), After3(p, r.off[j - 1]), Tol)
=============================================================================
