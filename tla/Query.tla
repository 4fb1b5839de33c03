-------------------------------- MODULE Query --------------------------------
(* A sampling-based planner asked several queries one after the other. The      *)
(* library behind it keeps solutions and an exploration rooted at the start of  *)
(* a query until told to forget them; what is reported must belong to the       *)
(* query asked last.                                                            *)
EXTENDS Integers, Sequences
VARIABLES asked,     \* the query asked last, or <<>>
          kept,      \* solutions the library still has, as queries
          roots,     \* starts the exploration is rooted at
          told,      \* what was reported last: <<>> or the query it answers
          work       \* motions checked since the last reset, as <<query, answer>>, in order
qvars == <<asked, kept, roots, told, work>>
QInit == asked = <<>> /\ kept = {} /\ roots = {} /\ told = <<>> /\ work = <<>>
Ask(q)      == /\ asked' = q /\ kept' = {} /\ roots' = {q[1]} /\ told' = <<>> /\ work' = <<>>
Check(a)    == /\ asked # <<>> /\ work' = Append(work, <<asked, a>>) /\ UNCHANGED <<asked, kept, roots, told>>
(* the library finds a solution from a root, or none in time *)
Found(x)    == /\ asked # <<>> /\ x \in roots
               /\ kept' = kept \cup {<<x, asked[2]>>}
               /\ \E s \in kept' : told' = s
               /\ UNCHANGED <<asked, roots, work>>
NotFound    == asked # <<>> /\ told' = <<>> /\ UNCHANGED <<asked, kept, roots, work>>
-----------------------------------------------------------------------------
Counted     == Len(work)
Passed      == Len(SelectSeq(work, LAMBDA w : w[2]))
OwnWork     == Passed <= Counted /\ \A k \in 1..Len(work) : work[k][1] = asked
Current     == told # <<>> => told = asked
Answered(solved, path) == solved <=> path # <<>>
=============================================================================
