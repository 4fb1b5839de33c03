SPECIFICATION Spec
CONSTANTS MaxLinks = 3
MaxOps = 4
PoseN = 3
INVARIANTS BaseAtLast LinksFollow Ordered
PROPERTIES ObserveKeeps
