------------------------------- MODULE Roadmap -------------------------------
(* A recorded roadmap: r.v, r.e, r.w its vertices, edges (0-based pairs) and    *)
(* weights; r.blocks what each construction of a C-slice added: vertices        *)
(* from..to-1, edges e0..e1-1, the vertices of each of its sweeps, and, in      *)
(* refinement, the edges exist[1]..exist[2]-1 to earlier vertices.              *)
EXTENDS RecTree, Poses
(* a sequence computed at once (TLC computes the others at each use) *)
Now(f)      == f \o <<>>
Ids(b)      == b.from..(b.to - 1)
SweepIds(b) == UNION { b.sweep[j][1]..(b.sweep[j][2] - 1) : j \in 1..Len(b.sweep) }
BlockOf(u)  == CHOOSE j \in 1..Len(r.blocks) : r.blocks[j].from <= u /\ u < r.blocks[j].to
SliceOf(u)  == r.blocks[BlockOf(u)].s
Edges       == { r.e[e] : e \in 1..Len(r.e) }
Contiguous ==
    /\ Len(r.blocks) >= 1 /\ r.blocks[1].from = 0 /\ r.blocks[Len(r.blocks)].to = Len(r.v)
    /\ \A j \in 1..(Len(r.blocks) - 1) : r.blocks[j].to = r.blocks[j + 1].from
(* C05 *)
WellFormed(paired(_, _)) ==
    /\ Len(r.w) = Len(r.e)
    /\ \A e \in 1..Len(r.e) : LET u == r.e[e][1]
                                  w == r.e[e][2]
                              IN  /\ u \in 0..(Len(r.v) - 1) /\ w \in 0..(Len(r.v) - 1)
                                  /\ Near(r.w[e], Dist(r.v[u + 1], r.v[w + 1]), R("1e-9"))
                                  /\ SliceOf(u) = SliceOf(w) \/ paired(SliceOf(u), SliceOf(w))
    /\ \A u \in 1..Len(r.v) : Len(r.v[u]) = Len(r.v[1]) /\ \A c \in 1..Len(r.v[u]) : IsFiniteReal(r.v[u][c])
(* refinement: the earlier construction of the same slice, and the edges to it *)
Earlier(j)  == CHOOSE h \in 1..Len(r.blocks) : r.blocks[h].s = r.blocks[j].s /\ r.blocks[h].round = r.blocks[j].round - 1
Round0(s)   == CHOOSE j \in 1..Len(r.blocks) : r.blocks[j].s = s /\ r.blocks[j].round = 0
(* D05: new vertices are joined to earlier ones of the same slice: going        *)
(* through them in order, each to some vertex of the round before when a clearly *)
(* free motion leads to one that is not before the one joined last               *)
Joins(j, easy(_, _)) ==
    LET b == r.blocks[j]
        a == r.blocks[Earlier(j)]
        X == (b.e0 + 1)..b.exist[2]
        New(e) == r.e[e][1] \in Ids(b) \/ r.e[e][2] \in Ids(b)
    IN  /\ b.exist[1] = b.e1
        /\ \A e \in X : /\ New(e)
                        /\ \A c \in 1..2 : r.e[e][c] \in Ids(b) \/ (r.e[e][c] \in 0..(b.from - 1) /\ SliceOf(r.e[e][c]) = b.s)
        /\ LET J == { r.e[e] : e \in { x \in X : r.e[x][1] < b.from \/ r.e[x][2] < b.from } }
               Lone == { u \in Ids(b) : \A x \in J : u \notin {x[1], x[2]} }
               To(x) == IF x[1] < x[2] THEN x[1] ELSE x[2]
               From(x) == IF x[1] < x[2] THEN x[2] ELSE x[1]
               Last(u) == LET L == {0} \cup { To(x) : x \in { y \in J : From(y) < u } } IN CHOOSE x \in L : \A y \in L : y <= x
           IN  \A u \in Lone : LET l == Last(u) IN ~ \E w \in Ids(a) : w >= l /\ easy(u, w)
(* the slices a round constructs, in order, on twice as many lines each time *)
Rounds(n) ==
    /\ (r.rounds > 0 /\ Len(r.v) > 0) => Len(r.blocks) = n * (r.rounds + 1)
    /\ \A j \in 1..Len(r.blocks) :
        LET b == r.blocks[j]
        IN  /\ b.s = (j - 1) % n /\ b.round = (j - 1) \div n
            /\ b.lx = r.lx * (2 ^ b.round) /\ b.ly = r.ly * (2 ^ b.round)
Gap(lo, hi, n)     == (hi \ominus lo) \oslash (n - 1)
OnLine(x, lo, hi, n) == \E q \in 0..(n - 1) : Near(x, lo \oplus (q \otimes Gap(lo, hi, n)), R("1e-6"))
Mix(x, y, t) == [j \in 1..Len(x) |-> ((1 \ominus t) \otimes x[j]) \oplus (t \otimes y[j])]
=============================================================================
