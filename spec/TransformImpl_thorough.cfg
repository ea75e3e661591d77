SPECIFICATION Spec
CONSTANTS P = 241 G = 7 Sizes = {1, 2, 3, 4, 5, 6, 10, 12} MaxOps = 3
INVARIANTS ForwardIsDct InverseUndoes EvenPlacesZero MirrorSound
CHECK_DEADLOCK FALSE
