------------------------------ MODULE GraphsMC -------------------------------
(* Shortest (relaxation) is the least cost over all walks, and equals           *)
(* ShortestFrom, on every graph with up to 4 vertices and some weights.          *)
EXTENDS Graphs, FiniteSets, TLC
VARIABLE g
All == { <<0,1>>, <<0,2>>, <<0,3>>, <<1,2>>, <<1,3>>, <<2,3>> }
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Seqs(S \ {x})
W(e, m) == R(1 + ((e[1] * 5 + e[2] * 7 + m * 3) % 4))
Init == g \in [edges : SUBSET All, m : 0..3]
Next == UNCHANGED g
Paths == UNION { { p \in [1..l -> 0..3] : \A a, b \in 1..l : a # b => p[a] # p[b] } : l \in 1..4 }
Agree == LET E == Seqs(g.edges)
             Ws == [j \in 1..Len(E) |-> W(E[j], g.m)]
         IN  \A s \in 0..3 :
               LET D == Shortest(4, E, Ws, s)
                   F == ShortestFrom(4, E, Ws, s)
               IN  \A t \in 0..3 :
                     LET P == { p \in Paths : p[1] = s /\ p[Len(p)] = t /\ IsWalk(E, p) }
                     IN  /\ REq(D[t + 1], F[t + 1])
                         /\ P = {} => REq(D[t + 1], Far)
                         /\ \A p \in P : D[t + 1] \preceq WalkCost(E, Ws, p)
                         /\ P # {} => \E p \in P : REq(D[t + 1], WalkCost(E, Ws, p))
=============================================================================
