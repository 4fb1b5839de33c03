----------------------------- MODULE EncloseTrace -----------------------------
(* B02: enclosing ellipses and ellipsoids.                                     *)
EXTENDS RecTree, Poses
Tol2(s) == R("1e-6") \otimes Size2(s)
Tol3(s) == R("1e-6") \otimes Size3(s)
Cover2 == r.k = "mvce2" =>
    LET ra == Room2(r.c, r.a)
        rb == Room2(r.c, r.b)
    IN  /\ ra \succeq RNeg(Tol2(r.c)) /\ rb \succeq RNeg(Tol2(r.c))
        /\ RMin(ra, rb) \preceq Tol2(r.c)
        /\ REq(r.c[3], 1) /\ VNear(SubSeq(r.c, 4, 5), <<0, 0>>, 0)
Cover3 == r.k = "mvce3" =>
    LET ra == Room3(r.c, r.a)
        rb == Room3(r.c, r.b)
    IN  /\ ra \succeq RNeg(Tol3(r.c)) /\ rb \succeq RNeg(Tol3(r.c))
        /\ RMin(ra, rb) \preceq Tol3(r.c)
        /\ VNear(SubSeq(r.c, 4, 8), <<1, 1, 0, 0, 0>>, 0)
(* the angle goes linearly from the first to the last *)
Motion2 == r.k = "tfe2" =>
    \A j \in 0..(r.steps - 1) :
        Room2(r.c, Turn2(r.a, r.from \oplus ((j \oslash (r.steps - 1)) \otimes (r.to \ominus r.from)))) \succeq RNeg(Tol2(r.c))
Motion3 == r.k = "tfe3" =>
    \E b \in Arcs(r.from, r.to) : \A j \in 0..r.steps :
        LET q == IF j = r.steps THEN b ELSE SlerpRaw(r.from, b, j \oslash r.steps)
        IN  Room3(r.c, Turn3(r.a, q)) \succeq RNeg(Tol3(r.c))
=============================================================================
