INIT Init
NEXT Next
INVARIANTS Points Joins1
