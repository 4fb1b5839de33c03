---------------------------- MODULE IntervalTrace ---------------------------
(* A01: what Interval::unions, intersects and complements returned, against  *)
(* the point sets they stand for.                                            *)
EXTENDS RecTree, Intervals
UnionOk        == r.k = "list" => IsUnion(r.ins, r.union)
IntersectionOk == r.k = "list" => IsIntersection(r.ins, r.inter)
ComplementOk   == r.k = "comp" => IsComplement(r.outer, r.inner, r.comp)
=============================================================================
