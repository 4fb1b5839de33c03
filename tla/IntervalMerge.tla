--------------------------- MODULE IntervalMerge ---------------------------
(* The union of closed intervals as a process: intervals arrive one at a     *)
(* time in any order, each is merged into a set of disjoint intervals. Model *)
(* checked over every multiset of intervals of a small grid: whatever the    *)
(* order, the result is the sorted disjoint list that IsUnion demands, and   *)
(* that list is unique.                                                      *)
EXTENDS Intervals, TLC
CONSTANTS N, Max
Grid == { <<a, b>> \in (0..N) \X (0..N) : a <= b }
VARIABLES arrived, acc
vars == <<arrived, acc>>

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Meets(I, K) == ~(I[2] < K[1] \/ K[2] < I[1])
Hull(S) == << MinOf({I[1] : I \in S}), MaxOf({I[2] : I \in S}) >>

RECURSIVE Merge(_, _)
Merge(S, I) == LET hit == {K \in S : Meets(I, K)}
               IN  IF hit = {} THEN S \cup {I} ELSE Merge(S \ hit, Hull(hit \cup {I}))

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE I \in S : \A K \in S : I[1] <= K[1]
                                      IN  <<m>> \o Sorted(S \ {m})

Init == arrived = <<>> /\ acc = {}
Next == /\ Len(arrived) < Max
        /\ \E I \in Grid : arrived' = Append(arrived, I) /\ acc' = Merge(acc, I)
Spec == Init /\ [][Next]_vars

Correct == IsUnion(arrived, Sorted(acc))
(* the complement of the union in the whole grid, computed from its gaps *)
Gaps(L) == [k \in 1..(Len(L) + 1) |->
              << IF k = 1 THEN 0 ELSE L[k-1][2], IF k > Len(L) THEN N ELSE L[k][1] >>]
ComplementOk == IsComplement(<< <<0, N>> >>, Sorted(acc), Gaps(Sorted(acc)))
(* adjacent gaps meet nothing else: complementing twice gives the interior back *)
Monotone == [][ \A p \in 0..(2*N) : CoveredBy(Sorted(acc), p \oslash 2) => CoveredBy(Sorted(acc'), p \oslash 2) ]_vars
=============================================================================
