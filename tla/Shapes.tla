------------------------------- MODULE Shapes -------------------------------
(* Convex bodies of the planner.                                              *)
(*   Shape2 == <<a, b, eps, x, y, angle>>                                     *)
(*   Shape3 == <<a, b, c, e1, e2, x, y, z, qw, qx, qy, qz>>                   *)
(* A body is known by its support function h(n), the largest n.x over its     *)
(* points; SupportTwo/Three define what Sup2/Sup3 of RealNum compute (there   *)
(* in Java for speed; ShapesMC checks that both agree).                       *)
(*   Gap(s, t)  = max over unit n of  -h_t(-n) - h_s(n) : the separation of   *)
(*                s and t when positive, minus the overlap depth otherwise    *)
(*   Room(s, t) = min over unit n of  h_s(n) - h_t(n)   : non-negative iff s  *)
(*                contains t, zero iff t also touches the boundary of s       *)
EXTENDS RealNum

Inv(x)        == 1 \oslash x
(* the q-norm of two numbers; q is the dual exponent of 2/eps *)
QNorm(u, v, eps) == LET q == 2 \oslash (2 \ominus eps)
                        m == RMax(RAbs(u), RAbs(v))
                    IN  IF REq(m, 0) THEN R(0)
                        ELSE m \otimes RPow(RPow(RAbs(u) \oslash m, q) \oplus RPow(RAbs(v) \oslash m, q), Inv(q))
SupportTwo(s, n) ==
    LET c == RCos(s[6])
        d == RSin(s[6])
        u == (c \otimes n[1]) \oplus (d \otimes n[2])
        v == (c \otimes n[2]) \ominus (d \otimes n[1])
    IN  QNorm(s[1] \otimes u, s[2] \otimes v, s[3]) \oplus ((n[1] \otimes s[4]) \oplus (n[2] \otimes s[5]))
Quat(s)  == SubSeq(s, 9, 12)
Pos(s)   == SubSeq(s, 6, 8)
SupportThree(s, n) ==
    LET u == QRot(QConj(Quat(s)), n)
    IN  QNorm(QNorm(s[1] \otimes u[1], s[2] \otimes u[2], s[5]), s[3] \otimes u[3], s[4])
        \oplus Dot(n, Pos(s))

(* implicit function: 1 on the surface, smaller inside *)
PowA(x, a, e) == RPow(RAbs(x \oslash a), 2 \oslash e)
Implicit2(s, p) ==
    LET c == RCos(s[6])
        d == RSin(s[6])
        x == p[1] \ominus s[4]
        y == p[2] \ominus s[5]
        u == (c \otimes x) \oplus (d \otimes y)
        v == (c \otimes y) \ominus (d \otimes x)
    IN  PowA(u, s[1], s[3]) \oplus PowA(v, s[2], s[3])
Implicit3(s, p) ==
    LET u == QRot(QConj(Quat(s)), VSub(p, Pos(s)))
    IN  RPow(PowA(u[1], s[1], s[5]) \oplus PowA(u[2], s[2], s[5]), s[5] \oslash s[4])
        \oplus PowA(u[3], s[3], s[4])
(* the same as a length: the surface is at 1 on every ray from the centre *)
Radial2(s, p) == RPow(Implicit2(s, p), s[3] \oslash 2)
Radial3(s, p) == RPow(Implicit3(s, p), s[4] \oslash 2)

At2(s, p)     == << s[1], s[2], s[3], p[1], p[2], s[6] >>
At3(s, p)     == << s[1], s[2], s[3], s[4], s[5], p[1], p[2], p[3], s[9], s[10], s[11], s[12] >>
Turn2(s, th)  == << s[1], s[2], s[3], s[4], s[5], th >>
Turn3(s, q)   == << s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], q[1], q[2], q[3], q[4] >>
Size2(s)      == RMax(s[1], s[2])
Size3(s)      == RMax(s[1], RMax(s[2], s[3]))
Pi            == R("3.14159265358979323846")
Dirs2(N)      == [k \in 1..N |-> << RCos((2 \otimes (Pi \otimes k)) \oslash N), RSin((2 \otimes (Pi \otimes k)) \oslash N) >>]
Unit(v)       == VScale(Inv(Norm(v)), v)
Dirs3         == { Unit(d) : d \in { <<x, y, z>> : x \in {-1,0,1}, y \in {-1,0,1}, z \in {-1,0,1} } \ {<<0,0,0>>} }
=============================================================================
