------------------------------ MODULE LineCases -----------------------------
(* Every convex polygon with 3..5 vertices on a 3 x 3 lattice (collinear     *)
(* vertices included), a catalogue of lattice polyhedra, and the lines to    *)
(* try: everything aligned with vertices and edges in every way the lattice  *)
(* offers.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, RealNum
Thorough == Param("tier", "quick") = "thorough"
W == 2
Pts == { <<x, y>> : x \in 0..W, y \in 0..W }
Sd(a, b, q) == (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1])
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
N(P, k) == P[(k % Len(P)) + 1]
Cycle(P) == /\ \A k \in 1..Len(P), j \in 1..Len(P) : Sd(P[k], N(P, k), P[j]) >= 0
            /\ \E j \in 1..Len(P) : Sd(P[1], P[2], P[j]) > 0
RECURSIVE Grow(_, _)
Grow(S, n) == IF n = 0 THEN S
              ELSE Grow({ Append(P, q) : P \in S, q \in Pts } , n - 1)
Good(P) == /\ Cardinality({P[k] : k \in 1..Len(P)}) = Len(P)
           /\ \A k \in 2..Len(P) : Lex(P[1], P[k])
           /\ Cycle(P)
Polys(n) == { P \in Grow({ <<p>> : p \in Pts }, n - 1) : Good(P) }
Polygons == Polys(3) \cup Polys(4) \cup (IF Thorough THEN Polys(5) ELSE {})
Scale(P, m) == [k \in 1..Len(P) |-> << m * P[k][1], m * P[k][2] >>]

(* polyhedra: a cube with both ways to cut its squares, an octahedron, a     *)
(* square pyramid, a prism and every tetrahedron on part of a lattice        *)
CubeV == << <<0,0,0>>, <<2,0,0>>, <<2,2,0>>, <<0,2,0>>, <<0,0,2>>, <<2,0,2>>, <<2,2,2>>, <<0,2,2>> >>
Quad(a, b, c, d, w) == IF w THEN << <<a,b,c>>, <<a,c,d>> >> ELSE << <<a,b,d>>, <<b,c,d>> >>
CubeF(w) == Quad(0,1,2,3,w) \o Quad(4,5,6,7,w) \o Quad(0,1,5,4,w) \o Quad(1,2,6,5,~w) \o Quad(2,3,7,6,w) \o Quad(3,0,4,7,~w)
OctV == << <<1,1,0>>, <<1,1,2>>, <<0,1,1>>, <<2,1,1>>, <<1,0,1>>, <<1,2,1>> >>
OctF == << <<0,2,4>>, <<0,4,3>>, <<0,3,5>>, <<0,5,2>>, <<1,2,4>>, <<1,4,3>>, <<1,3,5>>, <<1,5,2>> >>
PyrV == << <<0,0,0>>, <<2,0,0>>, <<2,2,0>>, <<0,2,0>>, <<1,1,2>> >>
PyrF == Quad(0,1,2,3,TRUE) \o << <<0,1,4>>, <<1,2,4>>, <<2,3,4>>, <<3,0,4>> >>
PriV == << <<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>, <<2,0,2>>, <<0,2,2>> >>
PriF == << <<0,1,2>>, <<3,4,5>> >> \o Quad(0,1,4,3,TRUE) \o Quad(1,2,5,4,FALSE) \o Quad(2,0,3,5,TRUE)
TetF == << <<0,1,2>>, <<0,1,3>>, <<0,2,3>>, <<1,2,3>> >>
TPts == IF Thorough THEN (0..2) \X (0..2) \X (0..2) ELSE (0..1) \X (0..1) \X {0, 2}
Det(a, b, c) == a[1]*(b[2]*c[3]-b[3]*c[2]) - a[2]*(b[1]*c[3]-b[3]*c[1]) + a[3]*(b[1]*c[2]-b[2]*c[1])
D3(p, q) == <<p[1]-q[1], p[2]-q[2], p[3]-q[3]>>
Lex3(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] < q[3])))
Tets == { <<<<0,0,0>>, a, b, c>> : a \in TPts, b \in TPts, c \in TPts }
TetOk(T) == Lex3(T[2], T[3]) /\ Lex3(T[3], T[4]) /\ Det(T[2], T[3], T[4]) # 0
Polyhedra == << <<CubeV, CubeF(TRUE)>>, <<CubeV, CubeF(FALSE)>>, <<OctV, OctF>>, <<PyrV, PyrF>>, <<PriV, PriF>> >>
             \o SetToSeq({ <<T, TetF>> : T \in { t \in Tets : TetOk(t) } })
Dirs == { <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<0,0,-1>>, <<1,1,0>>, <<1,0,1>>, <<0,1,-1>>, <<1,1,1>>, <<1,-1,1>>, <<1,2,0>>, <<2,1,-1>>, <<-1,1,2>> }

Cases ==
    SetToSeq({ [k |-> "poly", poly |-> Scale(P, 2)] : P \in Polygons })
    \o [j \in 1..Len(Polyhedra) |->
          [k |-> "solid", v |-> Polyhedra[j][1], f |-> Polyhedra[j][2], dirs |-> SetToSeq(Dirs)]]
ASSUME ndJsonSerialize(Param("out", "cases.ndjson"), Cases)
=============================================================================
