----------------------------- MODULE SearchTrace -----------------------------
(* D01, D03: the answer of a search over a roadmap with attached start vertices  *)
(* S and goal vertices G.                                                        *)
EXTENDS RecTree, Graphs, Poses
Tol == R("1e-9")
Rot4(c) == SubSeq(c, 4, 7)
Mix(x, y, t) == [j \in 1..Len(x) |-> ((1 \ominus t) \otimes x[j]) \oplus (t \otimes y[j])]
Answer(n, E, W, S, G, solved, path, cost) ==
    LET D(s) == ShortestFrom(n, E, W, s)
        joined == \E s \in Elems(S) : \E g \in Elems(G) : D(s)[g + 1] \prec Far
    IN  /\ solved = joined
        /\ solved => /\ path # <<>>
                     /\ path[1] \in Elems(S) /\ path[Len(path)] \in Elems(G)
                     /\ IsWalk(E, path)
                     /\ LET c == D(path[1])[path[Len(path)] + 1]
                            w == WalkCost(E, W, path)
                        IN  Near(cost, w, Tol \otimes (1 \oplus w)) /\ Near(w, c, Tol \otimes (1 \oplus c))
        /\ ~solved => path = <<>>
Weights(v, e, w) == Len(w) = Len(e) /\ \A j \in 1..Len(e) : Near(w[j], Dist(v[e[j][1] + 1], v[e[j][2] + 1]), Tol)
Found == r.k \in {"graph", "found"} =>
    /\ Weights(r.v, r.e, r.w)
    /\ Answer(Len(r.v), r.e, r.w, r.S, r.G, r.solved, r.path, r.cost)
Size(r1) == IF r1.v = <<>> THEN 0 ELSE Len(r1.v[1])
(* the query as a configuration of the roadmap's size *)
Fit(q, m) == [j \in 1..m |-> IF j <= Len(q) THEN q[j] ELSE R(0)]
Solution == r.k \in {"graph", "found"} =>
    /\ ~r.solved => r.sol = <<>> /\ r.interp = <<>>
    /\ r.solved => /\ Len(r.sol) = Len(r.path) + 2
                   /\ VNear(r.sol[1], Fit(r.start, Size(r)), 0) /\ VNear(r.sol[Len(r.sol)], Fit(r.goal, Size(r)), 0)
                   /\ \A j \in 1..Len(r.path) : VNear(r.sol[j + 1], r.v[r.path[j] + 1], 0)
(* interpolated: every configuration of the solution in order, nothing else but  *)
(* (in space) configurations in between                                          *)
(* place of x on the straight motion from a to b, when it is on it *)
Place(a, b, x) ==
    LET lin(c) == SubSeq(c, 1, 3) \o SubSeq(c, 8, Len(c))
        d == VSub(lin(b), lin(a))
        len == Dot(d, d)
        turn == QAngle(Rot4(a), Rot4(b))
    IN  IF len \succ R("1e-12") THEN Dot(VSub(lin(x), lin(a)), d) \oslash len
        ELSE IF turn \succ R("1e-6") THEN QAngle(Rot4(a), Rot4(x)) \oslash turn
        ELSE R(0)
SameConf(x, y, tol) == /\ Len(x) = Len(y) /\ VNear(SubSeq(x, 1, 3), SubSeq(y, 1, 3), tol) /\ QNear(Rot4(x), Rot4(y), tol)
                       /\ VNear(SubSeq(x, 8, Len(x)), SubSeq(y, 8, Len(y)), tol)
OnMotion(a, b, x, t) ==
    /\ R("-1e-9") \preceq t /\ t \preceq R("1.000000001")
    /\ \E q \in Arcs(Rot4(a), Rot4(b)) :
         SameConf(x, Mix(SubSeq(a, 1, 3), SubSeq(b, 1, 3), t) \o SlerpRaw(Rot4(a), q, t)
                     \o Mix(SubSeq(a, 8, Len(a)), SubSeq(b, 8, Len(b)), t), R("1e-6"))
(* I[j] has been matched to the motion that follows S[m], at t *)
RECURSIVE Follows(_, _, _, _, _)
Follows(I, S, j, m, t) ==
    IF j = Len(I) THEN m = Len(S)
    ELSE IF m < Len(S) /\ SameConf(I[j + 1], S[m + 1], Tol) THEN Follows(I, S, j + 1, m + 1, R(0))
    ELSE IF m = Len(S) THEN FALSE
    ELSE LET u == Place(S[m], S[m + 1], I[j + 1])
         IN  u \succeq (t \ominus R("1e-9")) /\ OnMotion(S[m], S[m + 1], I[j + 1], u) /\ Follows(I, S, j + 1, m, u)
InterpSpace == (r.k \in {"graph", "found"} /\ r.solved /\ Size(r) > 3) =>
    /\ Len(r.interp) >= 1 /\ SameConf(r.interp[1], r.sol[1], 0) 
    /\ Follows(r.interp, r.sol, 1, 1, R(0))
InterpPlane == (r.k \in {"graph", "found"} /\ r.solved /\ Size(r) = 3) =>
    /\ Len(r.interp) = Len(r.sol)
    /\ \A j \in 1..Len(r.sol) : VNear(r.interp[j], r.sol[j], 0)
=============================================================================
