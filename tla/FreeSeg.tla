------------------------------ MODULE FreeSeg -------------------------------
(* A02: the free part of a sweep line, from the sections of the line with the *)
(* arena parts and the obstacles.                                             *)
EXTENDS RealNum, FiniteSets

(* A, O: sequences of sections (<<>> or <<first, last>>); the line's limits   *)
InArena(A, p)   == \A k \in 1..Len(A) : A[k] # <<>> /\ A[k][1] \preceq p /\ p \preceq A[k][2]
InObs(O, p)     == \E k \in 1..Len(O) : O[k] # <<>> /\ O[k][1] \prec p /\ p \prec O[k][2]
FreePt(A, O, lo, hi, p) == lo \preceq p /\ p \preceq hi /\ InArena(A, p) /\ ~InObs(O, p)
EndsSeq(S) == SelectSeq([j \in 1..(2 * Len(S)) |-> IF S[(j+1) \div 2] = <<>> THEN R("nan")
                                                   ELSE S[(j+1) \div 2][1 + ((j+1) % 2)]],
                        LAMBDA x : ~RNaN(x))
Mid(a, b) == (a \oplus b) \oslash 2
Clear(E, p, tol) == \A k \in 1..Len(E) : RAbs(E[k] \ominus p) \succ tol

(* reported: sequences xL, xU, xM *)
Covered(xL, xU, p) == \E k \in 1..Len(xL) : xL[k] \preceq p /\ p \preceq xU[k]
SortedSeq(s)       == \A k \in 1..(Len(s) - 1) : s[k] \preceq s[k+1]

(* a reported point, be it all of its segment, is not clearly outside; gone: *)
(* arenas that the line clearly misses                                        *)
NotOutside(A, O, lo, hi, p, tol) ==
    /\ (lo \ominus tol) \preceq p /\ p \preceq (hi \oplus tol)
    /\ \A k \in 1..Len(A) : A[k] = <<>> \/ ((A[k][1] \ominus tol) \preceq p /\ p \preceq (A[k][2] \oplus tol))
    /\ \A k \in 1..Len(O) : O[k] = <<>> \/ p \preceq (O[k][1] \oplus tol) \/ (O[k][2] \ominus tol) \preceq p

LineOk(A, O, tang, gone, lo, hi, xL, xU, xM, tol) ==
    LET E == << lo \oplus 0, hi \oplus 0 >> \o EndsSeq(A) \o EndsSeq(O)
        C == RSort(E \o xL \o xU)
        X == RSort(E)
        O2 == [k \in 1..Len(O) |-> IF tang[k] THEN <<>> ELSE O[k]]   \* touched from outside only
        Must(p) == FreePt(A, O, lo, hi, p)
        May(p)  == FreePt(A, O2, lo, hi, p)
    IN  /\ Len(xL) = Len(xM) /\ Len(xU) = Len(xM)
        /\ SortedSeq(xL) /\ SortedSeq(xU) /\ SortedSeq(xM)
        /\ \A k \in 1..Len(xL) : xL[k] \preceq xU[k]
        /\ gone => (xL = <<>> /\ xM = <<>>)
        /\ \A k \in 1..Len(xL) : NotOutside(A, O2, lo, hi, xL[k], tol) /\ NotOutside(A, O2, lo, hi, xU[k], tol)
        (* the same set, cell by cell *)
        /\ \A k \in 1..(Len(C) - 1) :
              LET p == Mid(C[k], C[k+1]) IN
              Clear(E, p, tol) => /\ Must(p) => Covered(xL, xU, p)
                                  /\ Covered(xL, xU, p) => May(p)
        (* every vertex on the line is in a free segment *)
        /\ \A k \in 1..Len(xM) :
              \/ Covered(xL, xU, xM[k])
              \/ \E j \in 1..Len(xL) : Near(xL[j], xM[k], tol) \/ Near(xU[j], xM[k], tol)
        /\ \A k \in 1..Len(xM) : Clear(E, xM[k], tol) => May(xM[k])
        (* the middle of every free segment is a vertex *)
        /\ (\A k \in 1..Len(tang) : ~tang[k]) =>
           \A k \in 1..(Len(X) - 1), j \in 2..Len(X) :
              LET a == X[k]
                  b == X[j]
              IN  (/\ j > k /\ (b \ominus a) \succ (3 \otimes tol)
                   /\ Must(a \oplus (2 \otimes tol)) /\ Must(b \ominus (2 \otimes tol))      \* free next to both ends,
                   /\ ~Must(a \ominus (2 \otimes tol)) /\ ~Must(b \oplus (2 \otimes tol))    \* not beyond them,
                   /\ Clear(X, a \oplus (2 \otimes tol), tol) /\ Clear(X, b \ominus (2 \otimes tol), tol)
                   /\ \A q \in k..(j - 1) : Must(Mid(X[q], X[q+1]))                          \* nothing narrow in between,
                   /\ \A q \in 1..Len(X) :                                                   \* nor an end
                        (X[q] \succ (a \oplus tol) /\ X[q] \prec (b \ominus tol)) =>
                           (Must(X[q] \oplus (2 \otimes tol)) /\ Must(X[q] \ominus (2 \otimes tol)) /\ Must(X[q])))
                  => \E q \in 1..Len(xM) : Near(xM[q], Mid(a, b), 2 \otimes tol)

(* Whole segments of a line, from the pieces its vertices cut it into         *)
Whole(xL, xU) ==
    LET Start == { k \in 1..Len(xL) : k = 1 \/ xL[k] \succ xU[k-1] }
        Last(k) == CHOOSE m \in k..Len(xL) :
                       /\ m = Len(xL) \/ (m + 1) \in Start
                       /\ \A q \in (k+1)..m : q \notin Start
    IN  { << xL[k], xU[Last(k)] >> : k \in Start }
(* Free segments of neighbouring lines that overlap: on each of the lines     *)
(* there is a vertex where both are free                                      *)
Facing(aL, aU, aM, bL, bU, bM, tol) ==
    \A A \in Whole(aL, aU), B \in Whole(bL, bU) :
        LET lo == RMax(A[1], B[1])
            hi == RMin(A[2], B[2])
            In(p) == (lo \ominus tol) \preceq p /\ p \preceq (hi \oplus tol)
        IN  (hi \ominus lo) \succ tol =>
               (\E q \in 1..Len(aM) : In(aM[q])) /\ (\E q \in 1..Len(bM) : In(bM[q]))
=============================================================================
