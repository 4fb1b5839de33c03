------------------------------ MODULE RecTree -------------------------------
(* A recorded run of independent observations: record i leads to records 2i  *)
(* and 2i+1, so that all of them are reachable and TLC's workers share them. *)
EXTENDS RealNum, TLC
LOCAL INSTANCE IOUtils
VARIABLE i
Trace == LoadTrace(TraceFile)
r == Trace[i]
(* deviations listed in known_findings.txt, by their key *)
Listed(key) == ("KNOWN_" \o key) \in DOMAIN IOEnv
Init == i = 1
Next == \E j \in {2*i, 2*i+1} : j <= Len(Trace) /\ i' = j
=============================================================================
