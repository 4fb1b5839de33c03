SPECIFICATION Spec
CONSTANTS MaxLimit = 7
 Every = 2
 Most = 2
INVARIANTS InOrder Joined EndedWell Overrun
PROPERTIES Grows Ends
