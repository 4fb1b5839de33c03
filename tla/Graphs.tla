------------------------------- MODULE Graphs --------------------------------
(* Undirected weighted graphs: vertices 0..n-1, E a sequence of pairs, W their  *)
(* weights. Far is beyond every walk.                                           *)
EXTENDS RealNum
Far == R("1e300")
RECURSIVE Relax(_, _, _, _), Settle(_, _, _, _)
Relax(E, W, D, j) ==
    IF j > Len(E) THEN D
    ELSE LET a == E[j][1] + 1
             b == E[j][2] + 1
             D1 == IF (D[a] \oplus W[j]) \prec D[b] THEN [D EXCEPT ![b] = D[a] \oplus W[j]] ELSE D
             D2 == IF (D1[b] \oplus W[j]) \prec D1[a] THEN [D1 EXCEPT ![a] = D1[b] \oplus W[j]] ELSE D1
         IN  Relax(E, W, D2, j + 1)
Settle(E, W, D, rounds) == LET D1 == Relax(E, W, D, 1)
                           IN  IF rounds = 0 \/ (\A v \in 1..Len(D) : REq(D1[v], D[v])) THEN D1 ELSE Settle(E, W, D1, rounds - 1)
(* length of a shortest walk from s to every vertex, Far where there is none    *)
(* (ShortestFrom of RealNum is the same, computed in Java; GraphsMC compares)   *)
Shortest(n, E, W, s) == Settle(E, W, [v \in 1..n |-> IF v = s + 1 THEN R(0) ELSE Far], n)
IsWalk(E, p) == \A j \in 1..(Len(p) - 1) : \E e \in 1..Len(E) : E[e] = <<p[j], p[j+1]>> \/ E[e] = <<p[j+1], p[j]>>
(* the cheapest edge between consecutive vertices *)
StepCost(E, W, a, b) == RMinSeq([e \in 1..Len(E) |-> IF E[e] = <<a, b>> \/ E[e] = <<b, a>> THEN W[e] ELSE Far])
WalkCost(E, W, p) == IF Len(p) < 2 THEN R(0) ELSE RSum([j \in 1..(Len(p) - 1) |-> StepCost(E, W, p[j], p[j+1])])
Elems(s) == { s[j] : j \in 1..Len(s) }
=============================================================================
