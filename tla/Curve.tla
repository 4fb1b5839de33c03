-------------------------------- MODULE Curve --------------------------------
(* Sampled closed curves and surfaces.                                         *)
EXTENDS Shapes, FiniteSets
Side(a, b, c) == ((b[1] \ominus a[1]) \otimes (c[2] \ominus a[2])) \ominus ((b[2] \ominus a[2]) \otimes (c[1] \ominus a[1]))
RECURSIVE Distinct_(_, _, _, _)
Distinct_(P, k, acc, tol) ==
    IF k > Len(P) THEN acc
    ELSE Distinct_(P, k + 1, IF acc # <<>> /\ Dist(acc[Len(acc)], P[k]) \preceq tol THEN acc ELSE Append(acc, P[k]), tol)
(* the points without immediate repetitions, the closing one included *)
Distinct(P, tol) == LET D == Distinct_(P, 1, <<>>, tol)
                    IN  IF Len(D) > 1 /\ Dist(D[1], D[Len(D)]) \preceq tol THEN SubSeq(D, 1, Len(D) - 1) ELSE D
(* turns taken on the way round: 1 for a curve that goes round once *)
Turns(D) == LET n == Len(D)
                at(k) == D[((k - 1) % n) + 1]
                turn(k) == LET u == VSub(at(k + 1), at(k))
                               v == VSub(at(k + 2), at(k + 1))
                           IN  RAtan2((u[1] \otimes v[2]) \ominus (u[2] \otimes v[1]), Dot(u, v))
            IN  RSum([k \in 1..n |-> turn(k)]) \oslash (2 \otimes Pi)
NoBackTurn(D, tol) == LET n == Len(D)
                          at(k) == D[((k - 1) % n) + 1]
                          s == IF Turns(D) \prec 0 THEN -1 ELSE 1
                      IN  \A k \in 1..n : (s \otimes Side(at(k), at(k + 1), at(k + 2))) \succeq RNeg(tol)
LongestStep(P) == RMaxSeq([k \in 1..(Len(P) - 1) |-> Dist(P[k], P[k + 1])])

(* a closed convex curve once around, first point = last point *)
OnceAround(P, tol) == LET D == Distinct(P, tol)
                      IN  /\ Dist(P[1], P[Len(P)]) \preceq tol
                          /\ Len(D) >= 3
                          /\ Near(RAbs(Turns(D)), 1, R("1e-3"))
                          /\ NoBackTurn(D, tol \otimes LongestStep(P))

(* grids: n x n points, row by row *)
GridStep(P, n) == RMaxSeq([k \in 1..(n * n) |->
    RMax(IF k % n = 0 THEN 0 ELSE Dist(P[k], P[k + 1]), IF k > n * (n - 1) THEN 0 ELSE Dist(P[k], P[k + n]))])
(* every cell of the parameter grid is split into two triangles by one diagonal *)
Cell(n, a, b) == LET k == a + n * b IN << k, k + 1, k + n + 1, k + n >>
Splits(c) == { { {c[1], c[2], c[3]}, {c[1], c[3], c[4]} }, { {c[1], c[2], c[4]}, {c[2], c[3], c[4]} } }
CellOf(T, n) == LET lo == CHOOSE x \in T : \A y \in T : (x % n) + (x \div n) * 0 <= (y % n)
                    up == CHOOSE x \in T : \A y \in T : x \div n <= y \div n
                IN  << lo % n, up \div n >>
GridMesh(F, n) ==
    LET T == [k \in 1..Len(F) |-> {F[k][1], F[k][2], F[k][3]}]
        cells == {0} \cup 1..(n - 2)
        byCell == [c \in cells \X cells |-> { T[k] : k \in { x \in 1..Len(T) : CellOf(T[x], n) = c } }]
    IN  /\ Len(F) = 2 * (n - 1) * (n - 1)
        /\ \A k \in 1..Len(T) : Cardinality(T[k]) = 3 /\ \A x \in T[k] : x \in 0..(n * n - 1)
        /\ \A c \in cells \X cells : byCell[c] \in Splits(Cell(n, c[1], c[2]))
=============================================================================
