------------------------------- MODULE Convex -------------------------------
(* Lines and segments against closed convex polygons and closed triangle     *)
(* meshes, as geometry (not as the code does it): a polygon is the           *)
(* intersection of the half planes of its edges, a segment is clipped by     *)
(* them. With integer coordinates every comparison below is exact, because   *)
(* equal fractions give equal doubles and different small ones stay apart.   *)
EXTENDS RealNum

(* ------------------------- polygons (sequences of <<x, y>>) ------------- *)
Nxt(P, k)  == IF k = Len(P) THEN P[1] ELSE P[k + 1]
EdgeSide(a, b, q) == ((b[1] \ominus a[1]) \otimes (q[2] \ominus a[2]))
                 \ominus ((b[2] \ominus a[2]) \otimes (q[1] \ominus a[1]))
Area2(P)   == RSum([k \in 1..Len(P) |-> (P[k][1] \otimes Nxt(P, k)[2]) \ominus (P[k][2] \otimes Nxt(P, k)[1])])
Orient(P)    == IF Area2(P) \prec 0 THEN -1 ELSE 1
(* signed side of q with respect to edge k: positive towards the inside *)
In(P, s, k, q) == s \otimes EdgeSide(P[k], Nxt(P, k), q)
IsEdge(P, k)   == ~(REq(P[k][1], Nxt(P, k)[1]) /\ REq(P[k][2], Nxt(P, k)[2]))
EdgesOf(P)     == { k \in 1..Len(P) : IsEdge(P, k) }

StrictlyInside(P, q)  == LET s == Orient(P) IN \A k \in EdgesOf(P) : In(P, s, k, q) \succ 0
StrictlyOutside(P, q) == LET s == Orient(P) IN \E k \in EdgesOf(P) : In(P, s, k, q) \prec 0
(* distance to the inside of the boundary: at least m beyond every edge line *)
InsideBy(P, q, m)     == LET s == Orient(P) IN \A k \in EdgesOf(P) :
                            In(P, s, k, q) \succ (m \otimes Dist(P[k], Nxt(P, k)))
OutsideBy(P, q, m)    == LET s == Orient(P) IN \E k \in EdgesOf(P) :
                            In(P, s, k, q) \prec (RNeg(m) \otimes Dist(P[k], Nxt(P, k)))

Zero    == R(0)
One     == R(1)
Empty01 == << One, Zero >>
Whole01 == << Zero, One >>
(* part of the segment a-b on the inner side of edge k moved inwards by m,   *)
(* as an interval of the segment's parameter (hi < lo when there is none)    *)
Part(fa, fb) ==
    IF fa \preceq 0 /\ fb \preceq 0 THEN Empty01
    ELSE IF fa \preceq 0 THEN << fa \oslash (fa \ominus fb), One >>
    ELSE IF fb \preceq 0 THEN << Zero, fa \oslash (fa \ominus fb) >>
    ELSE Whole01
PartClosed(fa, fb) ==
    IF fa \prec 0 /\ fb \prec 0 THEN Empty01
    ELSE IF fa \prec 0 THEN << fa \oslash (fa \ominus fb), One >>
    ELSE IF fb \prec 0 THEN << Zero, fa \oslash (fa \ominus fb) >>
    ELSE Whole01
(* the segment meets the interior moved inwards by m *)
MeetsInterior(P, a, b, m) ==
    LET s == Orient(P)
        E == EdgesOf(P)
        f(k, q) == In(P, s, k, q) \ominus (m \otimes Dist(P[k], Nxt(P, k)))
        C == { Part(f(k, a), f(k, b)) : k \in E }
    IN  \A c \in C, d \in C : c[1] \prec d[2]
(* the segment has a point in common with the polygon moved outwards by m *)
Meets(P, a, b, m) ==
    LET s == Orient(P)
        E == EdgesOf(P)
        f(k, q) == In(P, s, k, q) \oplus (m \otimes Dist(P[k], Nxt(P, k)))
        C == { PartClosed(f(k, a), f(k, b)) : k \in E }
    IN  \A c \in C, d \in C : c[1] \preceq d[2]

(* points of the polygon's boundary on the horizontal line at height y *)
Crossings(P, y) ==
    UNION { LET p == P[k]
                q == Nxt(P, k)
            IN  IF (p[2] \prec y /\ q[2] \prec y) \/ (p[2] \succ y /\ q[2] \succ y) THEN {}
                ELSE IF REq(p[2], q[2]) THEN {p[1] \oplus 0, q[1] \oplus 0}
                ELSE LET t == (y \ominus p[2]) \oslash (q[2] \ominus p[2])
                     IN  { p[1] \oplus (t \otimes (q[1] \ominus p[1])) }
          : k \in 1..Len(P) }
Least(S)    == CHOOSE x \in S : \A y \in S : x \preceq y
Greatest(S) == CHOOSE x \in S : \A y \in S : y \preceq x
(* <<>> or << first, last >> *)
Section(P, y) == LET S == Crossings(P, y) IN IF S = {} THEN <<>> ELSE << Least(S), Greatest(S) >>
(* the line goes through the inside of the polygon *)
ThroughInside(P, y) == (\E k \in 1..Len(P) : P[k][2] \prec y) /\ (\E k \in 1..Len(P) : P[k][2] \succ y)

(* ------------- convex polyhedra: points V, triangles F (0-based) -------- *)
Centre(V) == VScale(1 \oslash Len(V), [c \in 1..3 |-> RSum([k \in 1..Len(V) |-> V[k][c]])])
FaceN(V, f)  == Cross(VSub(V[f[2]+1], V[f[1]+1]), VSub(V[f[3]+1], V[f[1]+1]))
(* inner side of face f positive; in units of distance *)
FaceIn(V, c, f, q) == LET n == FaceN(V, f)
                          s == IF Dot(n, VSub(c, V[f[1]+1])) \prec 0 THEN -1 ELSE 1
                      IN  (s \otimes Dot(n, VSub(q, V[f[1]+1])))
(* the line o + t d against a convex polyhedron: <<lo, hi>> over all t, empty if lo > hi *)
LinePart(fo, fd) == IF REq(fd, 0) THEN (IF fo \prec 0 THEN << R("1e300"), R("-1e300") >> ELSE << R("-1e300"), R("1e300") >>)
                    ELSE IF fd \succ 0 THEN << RNeg(fo) \oslash fd, R("1e300") >>
                    ELSE << R("-1e300"), RNeg(fo) \oslash fd >>
PolyhedronSection(V, F, o, d) ==
    LET c == Centre(V)
        fd(f) == LET n == FaceN(V, f)
                     s == IF Dot(n, VSub(c, V[f[1]+1])) \prec 0 THEN -1 ELSE 1 IN s \otimes Dot(n, d)
        C == { LinePart(FaceIn(V, c, F[k], o), fd(F[k])) : k \in 1..Len(F) }
        lo == Greatest({x[1] \oplus 0 : x \in C})
        hi == Least({x[2] \oplus 0 : x \in C})
    IN  IF lo \succ hi THEN <<>> ELSE <<lo, hi>>
(* the line passes through the interior *)
LineInterior(V, F, o, d) ==
    LET c == Centre(V)
        s == PolyhedronSection(V, F, o, d)
    IN  s # <<>> /\ LET m == VAdd(o, VScale((s[1] \oplus s[2]) \oslash 2, d))
                    IN  \A k \in 1..Len(F) : FaceIn(V, c, F[k], m) \succ 0
=============================================================================
