----------------------------- MODULE FilesTrace ------------------------------
(* Scene, robot, end-point and result files, as recorded. *)
EXTENDS RecTree, Poses
(* numbers are read in single precision and written with six digits *)
Read1(x, y)   == Near(x, y, R("2e-7") \otimes (RAbs(y) \oplus R("1e-30")))
Written(x, y) == Near(x, y, R("6e-6") \otimes (RAbs(y) \oplus R("1e-30")))
AllRead(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(y) : Read1(x[k], y[k])
AllWritten(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(y) : Written(x[k], y[k])

(* ------------------------------------------------------ F01: records *)
Records(L)  == LET D == SelectSeq(L, LAMBDA l : ~l.c) IN [k \in 1..Len(D) |-> D[k].nums]
Parsed == r.k = "csv" =>
    LET D == Records(r.lines)
    IN  Len(r.got) = Len(D) /\ \A k \in 1..Len(D) : AllRead(r.got[k], D[k])
(* bodies of a scene file: records are the bodies *)
Bodies == r.k = "load" =>
    LET D == Records(r.lines)
    IN  /\ Len(r.got) = Len(D)
        /\ \A k \in 1..Len(D) : AllRead(r.got[k], D[k])
        /\ \A k \in 1..Len(D) : r.num[k] = r.want
(* a robot: the first record is the base, the others its links at their offsets *)
Robot == r.k = "robot" =>
    LET D == Records(r.lines)
    IN  /\ Len(r.links) = Len(D) - 1 /\ AllRead(r.base, D[1]) /\ r.num = r.want
        /\ \A k \in 1..Len(r.links) : AllRead(r.links[k], D[k + 1])
        /\ r.dim = 2 => \A k \in 1..Len(r.links) : SamePose2(r.off[k], PoseOf2(D[k + 1]), R("1e-5"))
        /\ r.dim = 3 => /\ \A k \in 1..Len(r.links) : SamePose3(r.off[k], PoseOf3(D[k + 1]), R("1e-5"))
                        /\ Len(r.quats) = Len(r.given)                 \* listed as x, y, z, w
                        /\ \A k \in 1..Len(r.given) :
                              AllRead(r.quats[k], << r.given[k][4], r.given[k][1], r.given[k][2], r.given[k][3] >>)
World == r.k = "world" =>
    /\ Len(r.gotArena) = Len(r.arena) /\ \A k \in 1..Len(r.arena) : AllRead(r.gotArena[k], r.arena[k])
    /\ Len(r.gotObs) = Len(r.obs) /\ \A k \in 1..Len(r.obs) : AllRead(r.gotObs[k], r.obs[k])
    /\ Len(r.gotEnds) = Len(r.ends) /\ \A k \in 1..Len(r.ends) : AllRead(r.gotEnds[k], r.ends[k])

(* ------------------------------------------------------ F01: conversion *)
Turned(q, ax, th) == IF REq(Norm(ax), 0) THEN QNear(q, <<1, 0, 0, 0>>, R("1e-5")) ELSE QNear(q, AxisTurn(ax, th), R("1e-5"))
Model(x, y) == IF Len(x) = 12
               THEN /\ Len(y) = 12 /\ AllWritten(SubSeq(y, 1, 8), SubSeq(x, 1, 8))
                    /\ Turned(SubSeq(y, 9, 12), SubSeq(x, 9, 11), x[12])
               ELSE AllWritten(y, x)
Joints(type) == IF type = "snake" THEN 3 ELSE IF type = "tree" THEN 9 ELSE 0
Ends(x, y) == IF r.dim = 2 THEN AllWritten(y, SubSeq(x, 1, 3))
              ELSE LET n == 7 + Joints(r.type)
                           \* known finding: the last three of the tree robot's nine joints are dropped
                           m == IF Listed("tree_ends") /\ r.type = "tree" /\ Len(y) = n - 3 THEN n - 3 ELSE n
                   IN  /\ Len(y) = m
                       /\ AllWritten(SubSeq(y, 1, 3), SubSeq(x, 1, 3))
                       /\ Turned(SubSeq(y, 4, 7), SubSeq(x, 4, 6), x[7])
                       /\ AllWritten(SubSeq(y, 8, m), SubSeq(x, 8, m))
Converted == r.k = "convert" =>
    /\ Len(r.out) = Len(r.in)
    /\ \A k \in 1..Len(r.in) : IF r.what = "ends" THEN Ends(r.in[k], r.out[k]) ELSE Model(r.in[k], r.out[k])

(* ------------------------------------------------------ F02 *)
Factor == IF r.dim = 2 THEN R("1.5") ELSE R("1.2")
Margin == Factor \otimes r.base[1]
Half(c) == r.arena[c] \ominus Margin
Centre(c) == r.arena[IF r.dim = 2 THEN 3 + c ELSE 5 + c]
Semi(s) == SubSeq(s, 1, r.dim)
Least == RMinSeq([k \in 1..Len(r.obs) |-> RMinSeq(Semi(r.obs[k]))])
Lines(c) == RFloor(Half(c) \oslash Least)
(* a quotient within rounding of a whole number may go either way *)
LinesOk(n, c) == REq(n, Lines(c)) \/ Near(Half(c) \oslash Least, n, R("1e-9")) \/ Near(Half(c) \oslash Least, n + 1, R("1e-9"))
Derived == r.k = "define" =>
    /\ Len(r.lim) = 2 * r.dim
    /\ \A c \in 1..r.dim : /\ Near(r.lim[2 * c - 1], Centre(c) \ominus Half(c), R("1e-9"))
                           /\ Near(r.lim[2 * c], Centre(c) \oplus Half(c), R("1e-9"))
    /\ LET x == IF r.lx0 # 0 THEN r.lx = r.lx0 ELSE LinesOk(r.lx, 1)
           y == IF r.ly0 # 0 THEN r.ly = r.ly0 ELSE LinesOk(r.ly, 2)
       IN  IF r.dim = 2 THEN r.lx = r.lx0 /\ y
           ELSE \/ x /\ y
                \* known finding: a number given in one direction only is overwritten
                \/ Listed("one_direction") /\ (r.lx0 = 0) # (r.ly0 = 0) /\ LinesOk(r.lx, 1) /\ LinesOk(r.ly, 2)
    /\ \/ r.n = IF r.dim = 3 /\ r.given > 0 THEN r.given ELSE r.n0
       \* known finding: the requested number of slices is lost without predefined orientations
       \/ Listed("no_orientations") /\ r.dim = 3 /\ r.given = 0 /\ r.n = 0
    /\ r.kept

(* ------------------------------------------------------ F03 *)
Rows(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : AllWritten(x[k], y[k])
Stored == r.k = "store" =>
    /\ Rows(r.fv, r.v) /\ r.fe = r.e
    /\ r.fid = r.id /\ Rows(r.fsol, r.sol) /\ Rows(r.finterp, r.interp)
    /\ r.readv = r.fv                        \* read back by the repository's own reader
(* boundaries and free segments of the first C-slice *)
Routine == r.k = "routine" => Rows(r.fo, r.origin) /\ Rows(r.fm, r.mink) /\ Rows(r.fs, r.seg)
=============================================================================
