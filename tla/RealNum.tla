------------------------------ MODULE RealNum ------------------------------
(* Numbers as the implementation has them. TLC has 32-bit integers only, so  *)
(* the IEEE doubles of a recorded trace are kept by a value class loaded      *)
(* from /verif/java (RealVal), and the operators below are overridden by the  *)
(* methods of the same name in RealNum.java. Integers are accepted wherever a *)
(* real is. Operators with a body here are overridden for speed only.         *)
EXTENDS Integers, Sequences

Undef == CHOOSE x \in {} : TRUE

R(s)         == Undef          \* the real written as the string (or integer) s
IsReal(x)    == Undef
IsFiniteReal(x) == Undef
RAdd(x, y)   == Undef
RSub(x, y)   == Undef
RMul(x, y)   == Undef
RDiv(x, y)   == Undef
RNeg(x)      == RSub(0, x)
RLt(x, y)    == Undef
RLe(x, y)    == Undef
REq(x, y)    == Undef
RNaN(x)      == Undef
RAbs(x)      == IF RLt(x, 0) THEN RNeg(x) ELSE x
RSqrt(x)     == Undef
RSin(x)      == Undef
RCos(x)      == Undef
RAcos(x)     == Undef
RAtan2(x, y) == Undef
RPow(x, y)   == Undef
RFloor(x)    == Undef
RMin(x, y)   == IF RLe(x, y) THEN x ELSE y
RMax(x, y)   == IF RLe(x, y) THEN y ELSE x
RSum(s)      == Undef          \* of a sequence
RMaxSeq(s)   == Undef
RMinSeq(s)   == Undef
RSort(s)     == Undef          \* the sequence in increasing order

a \oplus b   == RAdd(a, b)
a \ominus b  == RSub(a, b)
a \otimes b  == RMul(a, b)
a \oslash b  == RDiv(a, b)
a \prec b    == RLt(a, b)
a \preceq b  == RLe(a, b)
a \succ b    == RLt(b, a)
a \succeq b  == RLe(b, a)

(* vectors are sequences of reals *)
VAdd(u, v)   == [i \in 1..Len(u) |-> u[i] \oplus v[i]]
VSub(u, v)   == [i \in 1..Len(u) |-> u[i] \ominus v[i]]
VScale(s, v) == [i \in 1..Len(v) |-> s \otimes v[i]]
Dot(u, v)    == RSum([i \in 1..Len(u) |-> u[i] \otimes v[i]])
Norm(v)      == RSqrt(Dot(v, v))
Dist(u, v)   == Norm(VSub(u, v))
Cross(u, v)  == << (u[2] \otimes v[3]) \ominus (u[3] \otimes v[2]),
                   (u[3] \otimes v[1]) \ominus (u[1] \otimes v[3]),
                   (u[1] \otimes v[2]) \ominus (u[2] \otimes v[1]) >>

(* quaternions <<w,x,y,z>> *)
QMul(p, q)   == << ((p[1]\otimes q[1]) \ominus (p[2]\otimes q[2])) \ominus ((p[3]\otimes q[3]) \oplus (p[4]\otimes q[4])),
                   ((p[1]\otimes q[2]) \oplus (p[2]\otimes q[1])) \oplus ((p[3]\otimes q[4]) \ominus (p[4]\otimes q[3])),
                   ((p[1]\otimes q[3]) \ominus (p[2]\otimes q[4])) \oplus ((p[3]\otimes q[1]) \oplus (p[4]\otimes q[2])),
                   ((p[1]\otimes q[4]) \oplus (p[2]\otimes q[3])) \ominus ((p[3]\otimes q[2]) \ominus (p[4]\otimes q[1])) >>
QConj(q)     == << q[1], RNeg(q[2]), RNeg(q[3]), RNeg(q[4]) >>
(* v rotated by the rotation of q (any non-zero norm) *)
QRot(q, v)   == LET p == QMul(QMul(q, <<0>> \o v), QConj(q))
                    n == Dot(q, q)
                IN  << p[2] \oslash n, p[3] \oslash n, p[4] \oslash n >>

(* tolerance comparisons *)
Near(x, y, tol)  == RAbs(x \ominus y) \preceq tol
VNear(u, v, tol) == /\ Len(u) = Len(v)
                    /\ \A i \in 1..Len(u) : Near(u[i], v[i], tol)
(* same rotation: q and -q are the same *)
QNear(p, q, tol) == \/ VNear(p, q, tol)
                    \/ VNear(p, VScale(-1, q), tol)

(* ------------------------------------------------------------------------ *)
(* support functions of convex shapes; see Shapes.tla for the reading        *)
Sup2(s, n)   == Undef
Sup3(s, n)   == Undef
Gap2(s, t)   == Undef
Gap3(s, t)   == Undef
Room2(s, t)  == Undef
Room3(s, t)  == Undef
GapHull3(s, P) == Undef
SupPts(P, n) == Undef
(* shortest walks; see Graphs.tla *)
ShortestFrom(n, E, W, s) == Undef

(* ------------------------------------------------------------------------ *)
(* The section of the line l = <<point, direction>> (six numbers) with the   *)
(* triangles F (0-based indices into the points V): <<>> when there is none, *)
(* else the least and largest parameter of a common point. A point counts    *)
(* when its barycentric coordinates are at least -slack.                     *)
TriParam(o, d, a, b, c, slack) ==
    LET u == VSub(b, a)
        v == VSub(c, a)
        n == Cross(u, v)
        den == Dot(n, d)
        t == RNeg(Dot(n, VSub(o, a))) \oslash den
        p == VSub(VAdd(o, VScale(t, d)), a)
        nn == Dot(n, n)
        big == RMax(Dot(u, u), RMax(Dot(v, v), Dot(VSub(u, v), VSub(u, v))))
        s == Dot(n, Cross(p, v)) \oslash nn
        q == Dot(n, Cross(u, p)) \oslash nn
    IN  IF /\ Norm(n) \succ (R("1e-6") \otimes big)     \* not a sliver
           /\ RAbs(den) \succ (R("1e-12") \otimes (Norm(n) \otimes Norm(d)))
           /\ RNeg(slack) \preceq s /\ RNeg(slack) \preceq q /\ (s \oplus q) \preceq (1 \oplus slack)
        THEN {t} ELSE {}
MeshSection(l, V, F, slack) ==
    LET o == SubSeq(l, 1, 3)
        d == SubSeq(l, 4, 6)
        T == UNION { TriParam(o, d, V[F[k][1] + 1], V[F[k][2] + 1], V[F[k][3] + 1], slack) : k \in 1..Len(F) }
    IN  IF T = {} THEN <<>>
        ELSE << CHOOSE t \in T : \A w \in T : t \preceq w, CHOOSE t \in T : \A w \in T : w \preceq t >>

(* the recorded trace *)
LoadTrace(f) == Undef
TraceFile    == "trace.ndjson"
Param(name, default) == default
=============================================================================
