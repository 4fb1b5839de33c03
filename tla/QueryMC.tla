------------------------------- MODULE QueryMC -------------------------------
(* Points 1..N, those in Free valid. *)
EXTENDS Query
CONSTANTS N
VARIABLE steps
Free == 1..(N - 1)
vars == <<qvars, steps>>
Init == QInit /\ steps = 0
Next == /\ steps < 6 /\ steps' = steps + 1
        /\ \/ \E s, g \in 1..N : Ask(<<s, g>>)
           \/ asked # <<>> /\ asked[1] \in Free /\ asked[2] \in Free /\ \E x \in roots : Found(x)
           \/ NotFound
           \/ \E a \in BOOLEAN : Check(a)
Valid == told # <<>> => told[1] \in Free /\ told[2] \in Free
=============================================================================
