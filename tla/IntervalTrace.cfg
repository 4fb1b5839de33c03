INIT Init
NEXT Next
INVARIANTS UnionOk IntersectionOk ComplementOk
