INIT Init
NEXT Next
INVARIANT OnceInOrder
