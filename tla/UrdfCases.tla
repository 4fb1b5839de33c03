------------------------------ MODULE UrdfCases ------------------------------
(* Robot descriptions for B05: every tree of up to MaxN bodies whose bodies    *)
(* are numbered depth first, with every combination of joint kinds             *)
(* 0 revolute, 1 continuous, 2 fixed, 3 prismatic (at least one movable).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, RealNum
Thorough == Param("tier", "quick") = "thorough"
MaxN == IF Thorough THEN 5 ELSE 4
(* parent[b] < b, and depth first: the parent of b is b-1 or an ancestor of it *)
RECURSIVE Ancestors(_, _)
Ancestors(p, b) == IF b = 0 THEN {} ELSE {p[b]} \cup Ancestors(p, p[b])
Trees(n) == { p \in [1..n -> 0..(n-1)] : \A b \in 1..n : p[b] < b /\ (b > 1 => (p[b] = b - 1 \/ p[b] \in Ancestors(p, b - 1))) }
(* kinds vary over all combinations up to three bodies, over patterns beyond *)
Kinds(n) == IF n <= 3 THEN { k \in [1..n -> 0..3] : \E b \in 1..n : k[b] # 2 }
            ELSE { [b \in 1..n |-> IF b = f THEN 2 ELSE IF b = g THEN 3 ELSE b % 2] : f \in 1..n, g \in 1..n }
Cases == SetToSeq(UNION { { [parents |-> p, kinds |-> k] : p \in Trees(n), k \in Kinds(n) } : n \in 1..MaxN })
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
