------------------------------ MODULE RigidRobot ------------------------------
(* A rigid robot as a state machine: a base with links added to it, and the   *)
(* operations a user performs. Poses are abstract elements of a cyclic group   *)
(* here (PoseN of them); RobotTrace reads the same rules with real poses.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLinks, MaxOps, PoseN
VARIABLES off,      \* offset of each link from the base, in the order added
          base,     \* pose of the base
          link,     \* pose of each link as the robot stores it
          shape,    \* identity of each body, in order
          hist      \* operations done so far
vars == <<off, base, link, shape, hist>>
P == 0..(PoseN - 1)
After(p, q) == (p + q) % PoseN
(* the base may be created anywhere; links are described relative to the base *)
Init == off = <<>> /\ base \in P /\ link = <<>> /\ shape = <<0>> /\ hist = <<>>
(* bodies are added before the first operation and stay as described until then *)
AddBody == /\ Len(off) < MaxLinks /\ hist = <<>>
           /\ \E o \in P : off' = Append(off, o) /\ link' = Append(link, o)
           /\ shape' = Append(shape, Len(off) + 1)
           /\ UNCHANGED <<base, hist>>
Transform == /\ Len(hist) < MaxOps
             /\ \E g \in P : /\ base' = g
                             /\ link' = [k \in 1..Len(link) |-> After(g, off[k])]
                             /\ hist' = Append(hist, <<"tf", g>>)
             /\ UNCHANGED <<off, shape>>
(* computing boundaries, or working on a copy, is no change *)
Observe == /\ Len(hist) < MaxOps
           /\ \E k \in {"mink", "copy"} : hist' = Append(hist, <<k, 0>>)
           /\ UNCHANGED <<off, base, link, shape>>
Next == AddBody \/ Transform \/ Observe
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Transforms == { k \in 1..Len(hist) : hist[k][1] = "tf" }
LastPose == IF Transforms = {} THEN base ELSE hist[CHOOSE k \in Transforms : \A j \in Transforms : j <= k][2]
BaseAtLast == base = LastPose
LinksFollow == \A k \in 1..Len(off) : link[k] = IF Transforms = {} THEN off[k] ELSE After(LastPose, off[k])
Ordered == shape = [k \in 1..(Len(off) + 1) |-> k - 1] /\ Len(link) = Len(off)
ObserveKeeps == [][ (hist' # hist /\ hist'[Len(hist')][1] # "tf") => UNCHANGED <<off, base, link, shape>> ]_vars
=============================================================================
