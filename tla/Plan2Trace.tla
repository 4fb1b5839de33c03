----------------------------- MODULE Plan2Trace ------------------------------
(* Plans in the plane, as recorded: r.bodies at the reference pose (base first), *)
(* r.slices the recorded boundaries of every C-slice, r.blocks the vertices and  *)
(* edges each construction of a slice added, r.v, r.e, r.w the roadmap.          *)
EXTENDS Roadmap, Curve, Convex
P1 == R("3.1415926")                     \* the planner's pi
Heading(n, j) == IF n = 1 THEN RNeg(P1) ELSE RNeg(P1) \oplus ((j \otimes (2 \otimes P1)) \oslash (n - 1))
BodyAt(b, c)  == Place2(b, After2(c, PoseOf2(b)))        \* the body with the base at c
Largest       == RMaxSeq([j \in 1..Len(r.bodies) |-> Size2(r.bodies[j])])

(* ------------------------------------------------ C01: slice boundaries *)
CTol(s)       == R("1e-6") \otimes s
Touches(o, b, th, p)  == Near(Gap2(o, BodyAt(b, <<p[1], p[2], th>>)), 0, CTol(Size2(o) \oplus Size2(b)))
TouchesIn(a, b, th, p) == Near(Room2(a, BodyAt(b, <<p[1], p[2], th>>)), 0, CTol(Size2(a)))
Outline(o, b, th, P)   == (\A j \in 1..Len(P) : Touches(o, b, th, P[j])) /\ OnceAround(P, CTol(Size2(o) \oplus Size2(b)))
Inline(a, b, th, P)    == (\A j \in 1..Len(P) : TouchesIn(a, b, th, P[j])) /\ OnceAround(P, CTol(Size2(a)))
SliceBounds(S, th, B) ==
    LET Bod == 1..Len(B)
        NO == Len(r.obs)
        NA == Len(r.arena)
    IN  /\ Len(S.obs) = NO * Len(B) /\ Len(S.arena) = NA * Len(B)
        /\ \A j \in 1..Len(S.obs) : \E o \in 1..NO, b \in Bod : Outline(r.obs[o], B[b], th, S.obs[j])
        /\ \A o \in 1..NO, b \in Bod : \E j \in 1..Len(S.obs) : Outline(r.obs[o], B[b], th, S.obs[j])
        /\ \A j \in 1..Len(S.arena) : \E a \in 1..NA, b \in Bod : Inline(r.arena[a], B[b], th, S.arena[j])
        /\ \A a \in 1..NA, b \in Bod : \E j \in 1..Len(S.arena) : Inline(r.arena[a], B[b], th, S.arena[j])
C01 == r.k = "c01" =>
    /\ Len(r.slices) = r.n
    /\ \A s \in 1..r.n : SliceBounds(r.slices[s], Heading(r.n, s - 1), r.bodies)
(* the containment planner plans for its base enlarged by a tenth *)
Enlarged == << [j \in 1..6 |-> IF j <= 2 THEN R("1.1") \otimes r.bodies[1][j] ELSE r.bodies[1][j]] >>
Containment == r.k = "kc" =>
    /\ Len(r.slices) = r.n
    /\ \A s \in 1..r.n : SliceBounds(r.slices[s], Heading(r.n, s - 1), Enlarged)

(* ------------------------------------------------ C02: vertices *)
Vtol == R("1e-6")
(* how far inside the true C-obstacle a point outside the sampled one can be *)
Slack(S)    == IF S.obs = <<>> THEN R(0) ELSE RMaxSeq([j \in 1..Len(S.obs) |-> LongestStep(S.obs[j])])
C02 == r.k = "c02" =>
    \A j \in 1..Len(r.blocks) :
      LET b == r.blocks[j]
          S == r.slices[b.s + 1]
          sl == Slack(S)
      IN  \A u \in b.from..(b.to - 1) :
            LET x == r.v[u + 1]
                p == <<x[1], x[2]>>
            IN  /\ Len(x) = 3 /\ Wrapped(x[3] \ominus Heading(r.n, b.s)) \preceq R("1e-6")
                /\ \A q \in 1..Len(S.obs) : ~InsideBy(S.obs[q], p, Vtol)
                /\ \A q \in 1..Len(r.bodies), o \in 1..Len(r.obs) : Gap2(r.obs[o], BodyAt(r.bodies[q], x)) \succeq RNeg(sl \oplus Vtol)
                /\ u \in SweepIds(b) =>
                     /\ (r.lim[1] \ominus Vtol) \preceq p[1] /\ p[1] \preceq (r.lim[2] \oplus Vtol)
                     /\ (r.lim[3] \ominus Vtol) \preceq p[2] /\ p[2] \preceq (r.lim[4] \oplus Vtol)
                     /\ \A q \in 1..Len(S.arena) : ~OutsideBy(S.arena[q], p, Vtol)

(* ------------------------------------------------ edges and slices *)
(* constructed blocks are disjoint; vertices of no block only with containment *)
Neighbours(n, s, t) == s - t \in {1, -1} \/ (n > 1 /\ {s, t} = {0, n - 1})
XY(u) == << r.v[u + 1][1], r.v[u + 1][2] >>

(* C03 *)
C03 == r.k = "c03" =>
    \A e \in 1..Len(r.e) :
      LET u == r.e[e][1]
          w == r.e[e][2]
      IN  SliceOf(u) = SliceOf(w) =>
            LET S == r.slices[SliceOf(u) + 1]
            IN  \A q \in 1..Len(S.obs) : ~MeetsInterior(S.obs[q], XY(u), XY(w), Vtol)

(* C04: the motion checked between slices is linear in x, y and heading *)
(* how far a sampled outline of o for the enclosing ellipse f is inside the true one *)
Sag(o, f, P) == RMaxSeq([j \in 1..(Len(P) - 1) |-> RNeg(Gap2(o, At2(f, VScale(R("0.5"), VAdd(P[j], P[j + 1])))))])
Resolution == IF r.obs = <<>> THEN R(0)
              ELSE RMaxSeq(<<R("1e-6")>> \o [j \in 1..Len(r.bridges) |->
                     LET B == r.bridges[j]
                     IN  IF B.b = <<>> THEN R(0)
                         ELSE RMaxSeq([f \in 1..Len(B.b) |-> RMaxSeq([o \in 1..Len(B.b[f]) |-> Sag(r.obs[o], B.tfe[f], B.b[f][o])])])])
Steps == [m \in 1..r.points |-> (m - 1) \oslash (r.points - 1)]
(* the bridge of two slices: an ellipse around every body at all interpolated   *)
(* headings, and the curves on which it touches the obstacles                     *)
Crossing(j) == LET last == IF j < Len(r.bridges) THEN r.bridges[j + 1].e0 ELSE Len(r.e)
               IN  { e \in (r.bridges[j].e0 + 1)..last : SliceOf(r.e[e][1]) # SliceOf(r.e[e][2]) }
Bridge(j) ==
    LET B == r.bridges[j]
        X == Crossing(j)
        At(e, m) == Mix(r.v[r.e[e][1] + 1], r.v[r.e[e][2] + 1], Steps[m])
        Curved(o, f, P) == /\ \A k \in 1..Len(P) : Near(Gap2(o, At2(f, P[k])), 0, CTol(Size2(o) \oplus Size2(f)))
                           /\ OnceAround(P, CTol(Size2(o) \oplus Size2(f)))
    IN  X = {} \/
        /\ Len(B.tfe) = Len(r.bodies) /\ Len(B.b) = Len(r.bodies)
        /\ \A b \in 1..Len(B.b) : /\ Len(B.b[b]) = Len(r.obs)
                                   /\ \A o \in 1..Len(r.obs) : Curved(r.obs[o], B.tfe[b], B.b[b][o])
        /\ LET e == CHOOSE x \in X : TRUE
           IN  \A m \in 1..Len(Steps), b \in 1..Len(r.bodies) :
                 Room2(At2(B.tfe[b], <<0, 0>>), At2(BodyAt(r.bodies[b], At(e, m)), <<0, 0>>)) \succeq RNeg(CTol(Size2(B.tfe[b])))
        /\ \A e \in X, m \in 1..Len(Steps), b \in 1..Len(r.bodies), o \in 1..Len(r.obs) :
              LET p == PoseOf2(BodyAt(r.bodies[b], At(e, m))) IN ~InsideBy(B.b[b][o], <<p[1], p[2]>>, Vtol)
C04 == r.k = "c04" =>
  /\ \A j \in 1..Len(r.bridges) : Bridge(j)
  /\ LET res == (R("1.5") \otimes Resolution) \oplus R("1e-4")
    IN  \A e \in 1..Len(r.e) :
          LET u == r.e[e][1]
              w == r.e[e][2]
          IN  SliceOf(u) # SliceOf(w) =>
                \A m \in 1..Len(Steps), b \in 1..Len(r.bodies), o \in 1..Len(r.obs) :
                    Gap2(r.obs[o], BodyAt(r.bodies[b], Mix(r.v[u + 1], r.v[w + 1], Steps[m]))) \succeq RNeg(res)

(* C05 *)
C05 == r.k \in {"c05", "kc"} => /\ Contiguous /\ WellFormed(LAMBDA s, t : Neighbours(r.n, s, t))
                                /\ \A u \in 1..Len(r.v) : Len(r.v[u]) = 3

(* C06: within a slice; r.slices are the C-obstacles *)
Margin == R("1e-4")
ClearIn(S, u, w) == \A q \in 1..Len(S.obs) : ~Meets(S.obs[q], XY(u), XY(w), Margin)
LineGap(b) == Gap(r.lim[3], r.lim[4], b.ly)
SameLine(u, w) == RAbs(XY(u)[2] \ominus XY(w)[2]) \preceq R("1e-9")
NextLine(b, u, w) == Near(RAbs(XY(u)[2] \ominus XY(w)[2]), LineGap(b), R("1e-6"))
(* neighbours on a line: none between them, and none at the same place before *)
Adjacent(b, u, w) == w = u + 1 /\ SameLine(u, w)
C06 == r.k = "c06" =>
    \A j \in 1..Len(r.blocks) :
      LET b == r.blocks[j]
          S == r.slices[b.s + 1]
          V == SweepIds(b)
      IN  \A u, w \in V : (u < w /\ (Adjacent(b, u, w) \/ NextLine(b, u, w)) /\ ClearIn(S, u, w)) => (<<u, w>> \in Edges \/ <<w, u>> \in Edges)
(* between slices: a ball of twice the size around every body *)
Ball(b) == << 2 \otimes Size2(b), 2 \otimes Size2(b), R(1), R(0), R(0), R(0) >>
FreeBall(c) == \A b \in 1..Len(r.bodies), o \in 1..Len(r.obs) :
                  LET q == After2(c, PoseOf2(r.bodies[b])) IN Gap2(r.obs[o], At2(Ball(r.bodies[b]), <<q[1], q[2]>>)) \succ Margin
EasyMove(u, w) == /\ SameLine(u, w) \/ NextLine(r.blocks[1], u, w)
              /\ \A m \in 1..Len(Steps) : FreeBall(Mix(r.v[u + 1], r.v[w + 1], Steps[m]))
(* going through the vertices of a slice in order, each is joined to some vertex *)
(* of the next slice when a clear motion leads to one not before the one joined  *)
(* last                                                                           *)
InOrder(b, c) ==
    LET J == { e \in Edges : e[1] \in Ids(b) /\ e[2] \in Ids(c) }
        Lone == { u \in Ids(b) : \A e \in J : e[1] # u }
        Last(u) == LET X == {0} \cup { e[2] : e \in { x \in J : x[1] < u } } IN CHOOSE x \in X : \A y \in X : y <= x
    IN  \A u \in Lone : LET l == Last(u) IN ~ \E w \in Ids(c) : w >= l /\ EasyMove(u, w)
Follows(s) == IF s < r.n - 1 THEN {s + 1} ELSE IF r.n > 2 THEN {0} ELSE {}
JoinedSlices == r.k = "joined" =>
    \A s \in 0..(r.n - 1) : \A t \in Follows(s) : InOrder(r.blocks[Round0(s)], r.blocks[Round0(t)])

(* C07 *)
C07 == r.k = "c07" =>
    /\ Len(r.blocks) = r.n /\ Len(r.slices) = r.n
    /\ \A j \in 1..r.n : r.blocks[j].s = j - 1
    /\ \A j \in 1..r.n : \A u \in Ids(r.blocks[j]) : Near(r.v[u + 1][3], Heading(r.n, j - 1), R("1e-9")) \/ (
          Wrapped(r.v[u + 1][3] \ominus Heading(r.n, j - 1)) \preceq R("1e-6"))

(* D05: refinement *)
D05 == r.k = "d05" =>
    /\ Contiguous /\ Rounds(r.n)
    /\ \A j \in 1..Len(r.blocks) :
        LET b == r.blocks[j]
            S == r.slices[b.s + 1]
            Easy(u, w) == RAbs(XY(u)[2] \ominus XY(w)[2]) \preceq (R("1.5") \otimes LineGap(b)) /\ ClearIn(S, u, w)
        IN  /\ \A u \in Ids(b) : OnLine(XY(u)[2], r.lim[3], r.lim[4], b.ly) /\ Wrapped(r.v[u + 1][3] \ominus Heading(r.n, b.s)) \preceq R("1e-6")
            /\ \A u \in SweepIds(b) : /\ \A q \in 1..Len(S.obs) : ~InsideBy(S.obs[q], XY(u), Vtol)
                                      /\ \A q \in 1..Len(S.arena) : ~OutsideBy(S.arena[q], XY(u), Vtol)
            /\ b.round > 0 => Joins(j, Easy)
(* one sweep line per line number: a line with a free segment has a vertex - see FreeSeg *)

(* D02: attachment of queries *)
D02 == r.k = "near2" =>
    \A j \in 1..Len(r.queries) :
      LET Q == r.queries[j]
          q == Q.q
          V == 1..Q.nv
          H == [s \in 1..r.n |-> Heading(r.n, s - 1)]
          D == Now([u \in V |-> Dist(SubSeq(q, 1, 3), r.v[u])])
          A == Now([u \in V |-> RAbs(q[3] \ominus r.v[u][3])])
          least == RMinSeq([u \in V |-> A[u]])
          Nearest == { r.v[u][3] \oplus 0 : u \in { w \in V : A[w] \preceq (least \oplus R("1e-9")) } }
          \* headings exactly on the rim of the range count either way
          Rim == { R("1e-7"), R("-1e-7") }
          Within(c, a, b) == SelectSeq([s \in 1..r.n |-> s], LAMBDA s : (c \ominus H[s]) \prec (Q.radius \oplus a) /\ (H[s] \ominus c) \prec (Q.radius \oplus b))
          Take(c, a, b) == LET I == Within(c, a, b) IN IF Len(I) > Q.k THEN SubSeq(I, 1, Q.k) ELSE I
          OfS == Now([s \in 1..r.n |-> { u \in V : Near(r.v[u][3], H[s], R("1e-6")) }])
          range == (Q.radius \otimes (r.lim[4] \ominus r.lim[3])) \oslash Q.ly
          LeastOf == Now([s \in 1..r.n |-> RMinSeq(<<R("1e300")>> \o [u \in V |-> IF u \in OfS[s] THEN D[u] ELSE R("1e300")])])
          BestS == Now([s \in 1..r.n |-> { u \in OfS[s] : D[u] \preceq (LeastOf[s] \oplus R("1e-9")) }])
          Hit(u) == RAbs(q[2] \ominus r.v[u][2]) \prec range
          (* the slices that contribute, in order, and what they contribute *)
          Give(c, a, b) == SelectSeq(Take(c, a, b), LAMBDA s : OfS[s] # {} /\ \E u \in BestS[s] : Hit(u))
      IN  IF Q.nv = 0 THEN Q.res = <<>>
          ELSE \E c \in Nearest, a \in Rim, b \in Rim :
                 LET G == Give(c, a, b)
                 IN  /\ Len(Q.res) = Len(G)
                     /\ \A m \in 1..Len(G) : (Q.res[m] + 1) \in BestS[G[m]] /\ Hit(Q.res[m] + 1)

(* D07 *)
D07 == /\ r.k = "repeat" => r.a = r.b /\ r.a = r.c /\ r.kept = r.a /\ r.before = r.after /\ r.told = r.asked
       /\ r.k = "order" => r.a = r.b
=============================================================================
