------------------------------ MODULE KcTrace -------------------------------
(* Polyhedra of allowed motions, given by simplices, and the connections that   *)
(* the kinematics-of-containment planner makes with them.                        *)
EXTENDS Roadmap, FiniteSets
Vol(a, b, c, d) == Dot(VSub(b, a), Cross(VSub(c, a), VSub(d, a)))
(* the least barycentric coordinate of x in simplex s *)
Least(s, x) == LET V == Vol(s[1], s[2], s[3], s[4])
               IN  RMinSeq(<< Vol(x, s[2], s[3], s[4]) \oslash V, Vol(s[1], x, s[3], s[4]) \oslash V,
                              Vol(s[1], s[2], x, s[4]) \oslash V, Vol(s[1], s[2], s[3], x) \oslash V >>)
Tiny == R("1e-7")
In(P, x)      == \E k \in 1..Len(P) : Least(P[k], x) \succ Tiny            \* surely inside
NotOut(P, x)  == \E k \in 1..Len(P) : Least(P[k], x) \succ RNeg(Tiny)      \* not surely outside
Points == r.k = "poly" =>
    \A j \in 1..Len(r.q) : /\ In(r.poly, r.q[j].x) => r.q[j].in
                           /\ r.q[j].in => NotOut(r.poly, r.q[j].x)
(* connections: the vertices from r.kept on, each joined to one vertex of a     *)
(* slice and one of the next, from which it is reached by allowed motions        *)
Kept     == r.kept
News     == Kept..(Len(r.v) - 1)
Cross2   == { e \in 1..Len(r.e) : r.e[e][1] >= Kept \/ r.e[e][2] >= Kept }
At(u)    == { e \in Cross2 : u \in {r.e[e][1], r.e[e][2]} }
Other(e, u) == IF r.e[e][1] = u THEN r.e[e][2] ELSE r.e[e][1]
Ends(u)  == { Other(e, u) : e \in At(u) }
Follow(s, t) == t = (s + 1) % r.n
Reached(u, w) == NotOut(r.poly, VSub(r.v[u + 1], r.v[w + 1]))
(* which vertices each slice holds *)
InSlice(s) == UNION { Ids(r.blocks[j]) : j \in { h \in 1..Len(r.blocks) : r.blocks[h].s = s } }
(* every configuration between two vertices is reached from both: the polyhedra   *)
(* used here are convex, so the corners of the box between them decide            *)
Sure(x, y) == LET D == VSub(r.v[y + 1], r.v[x + 1])
                  C == << << D[1], D[2], D[3] >>, << D[1], D[2], R("0") >>, << D[1], R("0"), D[3] >>, << R("0"), D[2], D[3] >>,
                          << D[1], R("0"), R("0") >>, << R("0"), D[2], R("0") >>, << R("0"), R("0"), D[3] >> >>
              IN  \A k \in 1..Len(C) : NotOut(r.poly, VScale(R("1.01"), C[k])) /\ NotOut(r.poly, VScale(R("-1.01"), C[k]))
Joins1 == r.k = "joins" =>
    LET E == Now([k \in 1..(Len(r.v) - Kept) |-> Ends(Kept + k - 1)])
    IN
    /\ \A e \in 1..Len(r.e) : LET u == r.e[e][1]
                                  w == r.e[e][2]
                              IN  /\ Near(r.w[e], Dist(r.v[u + 1], r.v[w + 1]), R("1e-9"))
                                  /\ (u < Kept /\ w < Kept) => SliceOf(u) = SliceOf(w)
                                  /\ u < Kept \/ w < Kept
    /\ \A u \in News : LET X == E[u - Kept + 1]
                       IN  /\ Cardinality(At(u)) = 2
                           /\ \A x \in X : x < Kept /\ Reached(u, x)
                           /\ \E x, y \in X : X = {x, y} /\ Follow(SliceOf(x), SliceOf(y))
                           /\ Len(r.v[u + 1]) = 3
    \* a vertex is joined to the next slice when every configuration between it and
    \* a vertex there is reached from both (in particular when all motions are allowed)
    /\ r.poly # <<>> => \A s \in 0..(r.n - 1) :
          LET N == InSlice((s + 1) % r.n)
          IN  \A x \in InSlice(s) : \/ (\E k \in 1..Len(E) : x \in E[k] /\ E[k] \cap N # {})
                                     \/ \A y \in N : ~ Sure(x, y)
    /\ r.poly = <<>> => News = {}
=============================================================================
