SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxLimit = 10
INVARIANTS TypeOk OnceInOrder EndedWell Overrun
PROPERTIES Grows Ends
