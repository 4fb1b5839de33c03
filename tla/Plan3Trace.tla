----------------------------- MODULE Plan3Trace ------------------------------
(* Plans in space, as recorded (see Roadmap): r.bodies the robot's bodies, base *)
(* first, links at their offsets; r.joints the robot description when it moves; *)
(* r.quats the orientations and r.confs the configurations of the C-slices;     *)
(* r.slices the meshes and r.clouds the sampled boundaries of every C-slice.    *)
EXTENDS Roadmap, Kinematics, Curve
Moving == r.planner \in {"prob", "proba"}
(* body j with the base (and joints) at configuration c *)
BodyAt(j, c) ==
    LET b == r.bodies[j]
        p == SubSeq(c, 1, 7)
    IN  IF j = 1 THEN Place3(b, p)
        ELSE IF r.joints = <<>> THEN Place3(b, After3(p, PoseOf3(b)))
        ELSE Place3(b, After3(p, After3(Frame(r.joints, j - 1, SubSeq(c, 8, Len(c))), r.off[j - 1])))
N0          == IF Moving THEN Len(r.confs) ELSE Len(r.quats)
(* the configuration a slice is for, with the base at p *)
SliceConf(s, p) == IF Moving THEN p \o SubSeq(r.confs[s], 4, Len(r.confs[s])) ELSE p \o r.quats[s]
XYZ(u)      == SubSeq(r.v[u + 1], 1, 3)
Lim(c, lo)  == r.lim[2 * c - (IF lo THEN 1 ELSE 0)]

(* ------------------------------------------------ C01: slice boundaries *)
CTol(s)     == R("1e-6") \otimes s
Touches(o, b, s, p)   == Near(Gap3(o, BodyAt(b, SliceConf(s, p))), 0, CTol(Size3(o) \oplus Size3(r.bodies[b])))
TouchesIn(a, b, s, p) == Near(Room3(a, BodyAt(b, SliceConf(s, p))), 0, CTol(Size3(a)))
Stride      == IF r.n > 2 THEN 5 ELSE 2
Some(P)     == {1, Len(P)} \cup { k \in 1..Len(P) : k % Stride = 0 }
Root(n)     == CHOOSE m \in 1..n : m * m = n
(* the cloud reaches as far as the body's C-obstacle does in every direction *)
Offset(b, s) == Xyz(PoseOf3(BodyAt(b, SliceConf(s, <<0, 0, 0>>))))
AtZero(b, s) == At3(BodyAt(b, SliceConf(s, <<0, 0, 0>>)), <<0, 0, 0>>)
Outer(o, b, s, n) == (Sup3(o, n) \oplus Sup3(AtZero(b, s), VScale(-1, n))) \ominus Dot(n, Offset(b, s))
Inner(a, b, s, n) == (Sup3(a, n) \ominus Sup3(AtZero(b, s), n)) \ominus Dot(n, Offset(b, s))
Outline(o, b, s, P) == /\ \A k \in Some(P) : Touches(o, b, s, P[k])
                       /\ LET g == GridStep(P, Root(Len(P))) IN \A n \in Dirs3 : (Outer(o, b, s, n) \ominus SupPts(P, n)) \preceq g
Inline(a, b, s, P)  == /\ \A k \in Some(P) : TouchesIn(a, b, s, P[k])
                       /\ LET g == GridStep(P, Root(Len(P))) IN \A n \in Dirs3 : (Inner(a, b, s, n) \ominus SupPts(P, n)) \preceq g
SliceBounds(S, s) ==
    LET B == 1..Len(r.bodies)
        O == 1..Len(r.obs)
        A == 1..Len(r.arena)
    IN  /\ Len(S.obs) = Len(r.obs) * Len(r.bodies) /\ Len(S.arena) = Len(r.arena) * Len(r.bodies)
        /\ \A j \in 1..Len(S.obs) : \E o \in O, b \in B : Outline(r.obs[o], b, s, S.obs[j])
        /\ \A o \in O, b \in B : \E j \in 1..Len(S.obs) : Outline(r.obs[o], b, s, S.obs[j])
        /\ \A j \in 1..Len(S.arena) : \E a \in A, b \in B : Inline(r.arena[a], b, s, S.arena[j])
        /\ \A a \in A, b \in B : \E j \in 1..Len(S.arena) : Inline(r.arena[a], b, s, S.arena[j])
SameCloud(P, M) == Len(P) = Len(M.v) /\ \A k \in 1..Len(P) : VNear(P[k], M.v[k], R("1e-9"))
(* every mesh joins the neighbouring points of its grid *)
MeshKinds(Q) == { << Q[j].f, Len(Q[j].v) >> : j \in 1..Len(Q) }
Meshed == \A x \in UNION { MeshKinds(r.slices[s].obs) \cup MeshKinds(r.slices[s].arena) : s \in 1..Len(r.slices) } :
             \E n \in 1..x[2] : n * n = x[2] /\ GridMesh(r.fs[x[1]], n)
C01 == r.k = "c01" =>
    /\ Meshed
    /\ Len(r.clouds) = N0 /\ Len(r.slices) = N0
    /\ \A s \in 1..N0 : /\ SliceBounds(r.clouds[s], s)
                        /\ \A j \in 1..Len(r.slices[s].obs) : SameCloud(r.clouds[s].obs[j], r.slices[s].obs[j])
                        /\ \A j \in 1..Len(r.slices[s].arena) : SameCloud(r.clouds[s].arena[j], r.slices[s].arena[j])

(* ------------------------------------------------ C02: vertices *)
Vtol     == R("1e-6")
Up(p)    == << p[1], p[2], 0, 0, 0, 1 >>
Chord(M, line, slack) == MeshSection(line, M.v, r.fs[M.f], slack)
Within(M, p, m) == LET c == Chord(M, Up(p), R("1e-9")) IN c # <<>> /\ p[3] \succ (c[1] \oplus m) /\ p[3] \prec (c[2] \ominus m)
Beyond(M, p, m) == LET c == Chord(M, Up(p), R("1e-6")) IN c = <<>> \/ p[3] \prec (c[1] \ominus m) \/ p[3] \succ (c[2] \oplus m)
Oriented(x, s)  == /\ QNear(SubSeq(x, 4, 7), r.quats[s], R("1e-6"))
                   /\ Moving => /\ QNear(SubSeq(x, 4, 7), SubSeq(r.confs[s], 4, 7), R("1e-6"))
                                /\ VNear(SubSeq(x, 8, Len(x)), SubSeq(r.confs[s], 8, Len(r.confs[s])), 0)
VertexOk(b, u, S, lines) ==
    LET p == XYZ(u)
    IN  /\ Oriented(r.v[u + 1], b.s + 1)
        /\ \A q \in 1..Len(S.obs) : ~Within(S.obs[q], p, Vtol)
        /\ lines => /\ \A c \in 1..3 : (Lim(c, TRUE) \ominus Vtol) \preceq p[c] /\ p[c] \preceq (Lim(c, FALSE) \oplus Vtol)
                    /\ \A q \in 1..Len(S.arena) : ~Beyond(S.arena[q], p, Vtol)
C02 == r.k = "c02" =>
    \A j \in 1..Len(r.blocks) :
      LET b == r.blocks[j]
          W == SweepIds(b)
      IN  \A u \in Ids(b) : VertexOk(b, u, r.slices[b.s + 1], u \in W)

(* ------------------------------------------------ C03 *)
(* the part of the chord inside the motion from p to q, as a length *)
Inside3(M, p, q) == LET d == VSub(q, p)
                        c == Chord(M, p \o d, R("1e-9"))
                    IN  IF c = <<>> THEN R(0) ELSE (RMin(1, c[2]) \ominus RMax(0, c[1])) \otimes Norm(d)
C03 == r.k = "c03" =>
    \A e \in 1..Len(r.e) :
      LET u == r.e[e][1]
          w == r.e[e][2]
      IN  SliceOf(u) = SliceOf(w) =>
            LET S == r.slices[SliceOf(u) + 1] IN \A q \in 1..Len(S.obs) : Inside3(S.obs[q], XYZ(u), XYZ(w)) \preceq R("2e-3")

(* ------------------------------------------------ C04 *)
(* the checked motion: linear positions and joints, shortest rotation *)
Steps       == [m \in 1..(r.points + 1) |-> (m - 1) \oslash r.points]
Between(x, y, t, q2) == Mix(SubSeq(x, 1, 3), SubSeq(y, 1, 3), t) \o SlerpRaw(SubSeq(x, 4, 7), q2, t)
                        \o Mix(SubSeq(x, 8, Len(x)), SubSeq(y, 8, Len(y)), t)
(* how far the mesh around an enclosing ellipsoid is inside the true surface *)
Sag(o, f, M) == LET F == r.fs[M.f]
                    At(k) == VScale(1 \oslash 3, VAdd(M.v[F[k][1] + 1], VAdd(M.v[F[k][2] + 1], M.v[F[k][3] + 1])))
                    Mid(k) == VScale(R("0.5"), VAdd(M.v[F[k][1] + 1], M.v[F[k][3] + 1]))
                IN  RMaxSeq([k \in 1..Len(F) |-> RMax(RNeg(Gap3(o, At3(f, At(k)))), RNeg(Gap3(o, At3(f, Mid(k)))))])
Resolution == RMaxSeq(<<R("1e-6")>> \o [j \in 1..Len(r.bridges) |->
                 LET B == r.bridges[j]
                 IN  IF B.b = <<>> THEN R(0)
                     ELSE RMaxSeq([f \in 1..Len(B.b) |-> RMaxSeq(<<R(0)>> \o [o \in 1..Len(B.b[f]) |-> Sag(r.obs[o], B.tfe[f], B.b[f][o])])])])
Apart(u, w, gap(_, _), least(_)) ==
    \E q \in Arcs(SubSeq(r.v[u + 1], 4, 7), SubSeq(r.v[w + 1], 4, 7)) :
        \A m \in 1..Len(Steps), b \in 1..Len(r.bodies), o \in 1..Len(r.obs) :
            gap(o, BodyAt(b, Between(r.v[u + 1], r.v[w + 1], Steps[m], q))) \succeq least(o)
(* obstacles of the explicit check: hulls of sampled points, true ellipsoids *)
IsRound(o)  == Near(o[4], 1, R("1e-6")) /\ Near(o[5], 1, R("1e-6"))
Hull(o)     == [k \in 1..Len(r.hulls[o]) |-> VAdd(Pos(r.obs[o]), QRot(Quat(r.obs[o]), r.hulls[o][k]))]
HullGap(o, b) == IF IsRound(r.obs[o]) THEN Gap3(r.obs[o], b) ELSE GapHull3(b, Hull(o))
(* the same step by step: the bridge between two slices holds, for every body,  *)
(* an ellipsoid around it in all interpolated orientations, and the surfaces on  *)
(* which this ellipsoid touches the obstacles; the motion stays outside of them  *)
Crossing(j) == LET last == IF j < Len(r.bridges) THEN r.bridges[j + 1].e0 ELSE Len(r.e)
               IN  { e \in (r.bridges[j].e0 + 1)..last : SliceOf(r.e[e][1]) # SliceOf(r.e[e][2]) }
Bridge(j) ==
    LET B == r.bridges[j]
        X == Crossing(j)
        V(e, c) == r.v[r.e[e][c] + 1]
        BothArcs(e) == Arcs(SubSeq(V(e, 1), 4, 7), SubSeq(V(e, 2), 4, 7))
        Free(e, q) == \A m \in 1..Len(Steps) :
            LET c == Now(Between(V(e, 1), V(e, 2), Steps[m], q))
            IN  \A b \in 1..Len(r.bodies), o \in 1..Len(r.obs) : ~Within(B.b[b][o], Xyz(PoseOf3(BodyAt(b, c))), Vtol)
        Held(e, q) == \A m \in 1..Len(Steps) :
            LET c == Now(Between(V(e, 1), V(e, 2), Steps[m], q))
            IN  \A b \in 1..Len(r.bodies) : Room3(At3(B.tfe[b], <<0, 0, 0>>), At3(BodyAt(b, c), <<0, 0, 0>>)) \succeq RNeg(CTol(Size3(B.tfe[b])))
        Surface(o, f, P) == /\ \A k \in Some(P) : Near(Gap3(o, At3(f, P[k])), 0, CTol(Size3(o) \oplus Size3(f)))
                            /\ LET g == GridStep(P, Root(Len(P)))
                               IN  \A n \in Dirs3 : ((Sup3(o, n) \oplus Sup3(At3(f, <<0, 0, 0>>), VScale(-1, n))) \ominus SupPts(P, n)) \preceq g
    IN  X = {} \/
        /\ Len(B.tfe) = Len(r.bodies) /\ Len(B.b) = Len(r.bodies)
        /\ \A b \in 1..Len(B.b) : /\ Len(B.b[b]) = Len(r.obs)
                                   /\ \A o \in 1..Len(r.obs) : Surface(r.obs[o], B.tfe[b], B.b[b][o].v)
        /\ \A e \in X : \E q \in BothArcs(e) : Free(e, q) /\ (e = (CHOOSE x \in X : TRUE) => Held(e, q))
C04 == r.k = "c04" =>
    LET X == { e \in Edges : SliceOf(e[1]) # SliceOf(e[2]) }
    IN  X = {} \/
        IF r.planner \in {"ablation", "proba"}
        THEN \A e \in X : Apart(e[1], e[2], HullGap, LAMBDA o : R("-1e-2") \otimes Size3(r.obs[o]))
        ELSE /\ i % 3 # 0 \/ LET res == (R("1.5") \otimes Resolution) \oplus R("1e-4")
                IN  \A e \in X : Apart(e[1], e[2], LAMBDA o, b : Gap3(r.obs[o], b), LAMBDA o : RNeg(res))
             /\ \A j \in 1..Len(r.bridges) : Bridge(j)

(* ------------------------------------------------ C05 *)
(* each slice is connected to the closest earlier one *)
Away(s, t) == IF Moving THEN Dist(r.confs[s + 1], r.confs[t + 1]) ELSE QAngle(r.quats[s + 1], r.quats[t + 1])
Paired(s, t) == LET hi == IF s > t THEN s ELSE t
                    lo == IF s > t THEN t ELSE s
                IN  \A x \in 0..(hi - 1) : Away(hi, lo) \preceq (Away(hi, x) \oplus R("1e-9"))
C05 == r.k = "c05" => /\ Contiguous /\ WellFormed(Paired)
                      /\ \A u \in 1..Len(r.v) : Len(r.v[u]) = (IF Moving THEN Len(r.confs[1]) ELSE 7)

(* ------------------------------------------------ C06 *)
Margin == R("1e-3")
ClearOf(M, p, q) == LET c == Chord(M, p \o VSub(q, p), R("0.05")) IN c = <<>> \/ c[1] \succ (1 \oplus Margin) \/ c[2] \prec RNeg(Margin)
ClearPath(S, p, q) == \A o \in 1..Len(S.obs) : ClearOf(S.obs[o], p, q)
ClearIn(S, u, w) == ClearPath(S, XYZ(u), XYZ(w))
GapX(b) == Gap(Lim(1, TRUE), Lim(1, FALSE), b.lx)
GapY(b) == Gap(Lim(2, TRUE), Lim(2, FALSE), b.ly)
Off(u, w, c)  == RAbs(XYZ(u)[c] \ominus XYZ(w)[c])
Same(u, w, c) == Off(u, w, c) \preceq R("1e-9")
NextY(b, u, w) == Same(u, w, 1) /\ Near(Off(u, w, 2), GapY(b), R("1e-6"))
NextX(b, u, w) == Same(u, w, 2) /\ Near(Off(u, w, 1), GapX(b), R("1e-6"))
OneLine(u, w)  == w = u + 1 /\ Same(u, w, 1) /\ Same(u, w, 2)
(* over or under the obstacle between two neighbouring lines: at the height of  *)
(* one vertex to the other line, and along this line to the other vertex         *)
Corners(u, w) == { << XYZ(u)[1], XYZ(u)[2], XYZ(w)[3] >>, << XYZ(w)[1], XYZ(w)[2], XYZ(u)[3] >> }
Linked(u, w)  == <<u, w>> \in Edges \/ <<w, u>> \in Edges
Around2(b, S, u, w) ==
    (\E c \in Corners(u, w) : ClearPath(S, XYZ(u), c) /\ ClearPath(S, c, XYZ(w)))
        => \E x \in Ids(b) : /\ \E c \in Corners(u, w) : VNear(XYZ(x), c, R("1e-9"))
                              /\ Linked(u, x) /\ Linked(x, w)
C06 == r.k = "c06" =>
    \A j \in 1..Len(r.blocks) :
      LET b == r.blocks[j]
          S == r.slices[b.s + 1]
          V == SweepIds(b)
      IN /\ \A u, w \in V : (u < w /\ (OneLine(u, w) \/ NextY(b, u, w) \/ NextX(b, u, w)) /\ ClearIn(S, u, w)) => Linked(u, w)
         /\ \A u, w \in V : (u < w /\ (NextY(b, u, w) \/ NextX(b, u, w)) /\ ~Linked(u, w)) => Around2(b, S, u, w)
Ball(b)     == << 2 \otimes Size3(b), 2 \otimes Size3(b), 2 \otimes Size3(b), R(1), R(1) >> \o Id3
FreeBall(c) == \A b \in 1..Len(r.bodies), o \in 1..Len(r.obs) :
                  Gap3(r.obs[o], At3(Ball(r.bodies[b]), Pos(BodyAt(b, c)))) \succ Margin
EasyMove(b, u, w) ==
    /\ (Same(u, w, 1) \/ Near(Off(u, w, 1), GapX(b), R("1e-6"))) /\ (Same(u, w, 2) \/ Near(Off(u, w, 2), GapY(b), R("1e-6")))
    /\ \A q \in Arcs(SubSeq(r.v[u + 1], 4, 7), SubSeq(r.v[w + 1], 4, 7)) :
         \A m \in 1..Len(Steps) : FreeBall(Between(r.v[u + 1], r.v[w + 1], Steps[m], q))
(* going through the vertices of the earlier slice in order, each is joined to  *)
(* some vertex of the later one when a clear motion leads to one that is not     *)
(* before the one joined last                                                    *)
InOrder(b, c) ==
    LET J == { e \in Edges : e[1] \in Ids(b) /\ e[2] \in Ids(c) }
        Lone == { u \in SweepIds(b) : \A e \in J : e[1] # u }
        Last(u) == LET X == {0} \cup { e[2] : e \in { x \in J : x[1] < u } } IN CHOOSE x \in X : \A y \in X : y <= x
    IN  \A u \in Lone : LET l == Last(u) IN ~ \E w \in SweepIds(c) : w >= l /\ EasyMove(b, u, w)
JoinedSlices == r.k = "joined" =>
    \A s \in 1..(N0 - 1) :
        LET T == { t \in 0..(s - 1) : Paired(s, t) }
        IN  \E t \in T : InOrder(r.blocks[Round0(t)], r.blocks[Round0(s)])

(* ------------------------------------------------ C07 *)
C07 == (r.k = "c07" /\ ~Moving) =>
    /\ IF r.given # <<>> THEN Len(r.quats) = Len(r.given) /\ \A s \in 1..Len(r.given) : VNear(r.quats[s], r.given[s], 0)
       ELSE /\ Len(r.quats) = r.n
            /\ \A s \in 1..r.n : Near(Norm(r.quats[s]), 1, R("1e-9"))
            /\ \A s, t \in 1..r.n : s # t => ~QNear(r.quats[s], r.quats[t], R("1e-9"))
    /\ Len(r.blocks) = Len(r.quats)
    /\ \A j \in 1..Len(r.blocks) : /\ r.blocks[j].s = j - 1
                                   /\ \A u \in Ids(r.blocks[j]) : QNear(SubSeq(r.v[u + 1], 4, 7), r.quats[j], R("1e-6"))

(* ------------------------------------------------ D05 *)
D05 == r.k = "d05" =>
    /\ Len(r.blocks) > 0 => Contiguous
    /\ ~Moving => Rounds(Len(r.quats))
    /\ \A j \in 1..Len(r.blocks) :
        LET b == r.blocks[j]
            S == r.slices[b.s + 1]
            Easy(u, w) == Off(u, w, 1) \preceq (R("1.5") \otimes GapX(b)) /\ Off(u, w, 2) \preceq (R("1.5") \otimes GapY(b)) /\ ClearIn(S, u, w)
            W == SweepIds(b)
        IN  /\ \A u \in Ids(b) : VertexOk(b, u, S, u \in W)
            /\ \A u \in W : OnLine(XYZ(u)[1], Lim(1, TRUE), Lim(1, FALSE), b.lx) /\ OnLine(XYZ(u)[2], Lim(2, TRUE), Lim(2, FALSE), b.ly)
            /\ b.round > 0 => Joins(j, Easy)

(* ------------------------------------------------ D02 *)
D02 == r.k = "near3" =>
    \A j \in 1..Len(r.queries) :
      LET Q == r.queries[j]
          q == Q.q
          V == 1..Q.nv
          H == IF Moving THEN [s \in 1..Q.nq |-> SubSeq(r.confs[s], 4, 7)] ELSE SubSeq(r.quats, 1, Q.nq)
          rot == SubSeq(q, 4, 7)
          D == Now([u \in V |-> Dist(q, r.v[u])])
          A == Now([s \in 1..Q.nq |-> QAngle(rot, H[s])])
          least == RMinSeq(A)
          Nearest == { s \in 1..Q.nq : A[s] \preceq (least \oplus R("1e-9")) }
          Around(c) == SelectSeq([s \in 1..Q.nq |-> s], LAMBDA s : QAngle(H[c], H[s]) \prec Q.radius)
          Take(c) == LET I == Around(c) IN IF Len(I) > Q.k THEN SubSeq(I, 1, Q.k) ELSE I
          OfS == Now([s \in 1..Q.nq |-> { u \in V : QNear(SubSeq(r.v[u], 4, 7), H[s], R("1e-6")) }])
          LeastOf == Now([s \in 1..Q.nq |-> RMinSeq(<<R("1e300")>> \o [u \in V |-> IF u \in OfS[s] THEN D[u] ELSE R("1e300")])])
          BestS == Now([s \in 1..Q.nq |-> { u \in OfS[s] : D[u] \preceq (LeastOf[s] \oplus R("1e-9")) }])
          Hit(u) == /\ RAbs(q[1] \ominus r.v[u][1]) \prec ((Q.radius \otimes (Lim(1, FALSE) \ominus Lim(1, TRUE))) \oslash Q.lx)
                    /\ RAbs(q[2] \ominus r.v[u][2]) \prec ((Q.radius \otimes (Lim(2, FALSE) \ominus Lim(2, TRUE))) \oslash Q.ly)
          Give(c) == SelectSeq(Take(c), LAMBDA s : OfS[s] # {} /\ \E u \in BestS[s] : Hit(u))
      IN  IF Q.nv = 0 THEN Q.res = <<>>
          ELSE \E c \in Nearest :
                 LET G == Give(c)
                 IN  /\ Len(Q.res) = Len(G)
                     /\ \A m \in 1..Len(G) : (Q.res[m] + 1) \in BestS[G[m]] /\ Hit(Q.res[m] + 1)

(* ------------------------------------------------ D07 *)
D07 == /\ r.k = "repeat" => r.a = r.b /\ r.a = r.c /\ r.kept = r.a /\ r.before = r.after /\ r.told = r.asked
       /\ r.k = "order" => r.a = r.b
=============================================================================
