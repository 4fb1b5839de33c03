----------------------------- MODULE Intervals -----------------------------
(* Closed intervals <<s, e>> of a line, as sets of points. Numbers may be    *)
(* integers or recorded reals.                                               *)
EXTENDS RealNum, FiniteSets

IsInterval(I)   == Len(I) = 2 /\ I[1] \preceq I[2]
Has(I, p)       == I[1] \preceq p /\ p \preceq I[2]
HasInside(I, p) == I[1] \prec p /\ p \prec I[2]

CoveredBy(L, p)       == \E k \in 1..Len(L) : Has(L[k], p)
CoveredByAll(L, p)    == \A k \in 1..Len(L) : Has(L[k], p)
InsideOfSome(L, p)    == \E k \in 1..Len(L) : HasInside(L[k], p)

(* The sign pattern of a point against finitely many end points is constant  *)
(* on the cells those end points cut the line into, so two finite unions of  *)
(* intervals are equal iff they agree on the points below.                   *)
Ends(L)      == {L[k][1] \oplus 0 : k \in 1..Len(L)} \cup {L[k][2] \oplus 0 : k \in 1..Len(L)}
Cells(E)     == E \cup { (a \oplus b) \oslash 2 : a, b \in E }
                  \cup { a \ominus 1 : a \in E } \cup { a \oplus 1 : a \in E }

SortedDisjoint(L) == /\ \A k \in 1..Len(L) : IsInterval(L[k])
                     /\ \A k \in 1..(Len(L) - 1) : L[k][2] \prec L[k+1][1]

IsUnion(L, U) ==
    /\ SortedDisjoint(U)
    /\ \A p \in Cells(Ends(L) \cup Ends(U)) : CoveredBy(U, p) <=> CoveredBy(L, p)

IsIntersection(L, X) ==
    /\ Len(X) <= 1
    /\ \A k \in 1..Len(X) : IsInterval(X[k])
    /\ \A p \in Cells(Ends(L) \cup Ends(X)) : CoveredBy(X, p) <=> (L # <<>> /\ CoveredByAll(L, p))

(* outer has at most one interval; inner is sorted and disjoint *)
IsComplement(outer, inner, C) ==
    /\ \A k \in 1..Len(C) : IsInterval(C[k])
    /\ \A p \in Cells(Ends(outer) \cup Ends(inner) \cup Ends(C)) :
          CoveredBy(C, p) <=> (CoveredBy(outer, p) /\ ~InsideOfSome(inner, p))
=============================================================================
