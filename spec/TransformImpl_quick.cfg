SPECIFICATION Spec
CONSTANTS P = 97 G = 5 Sizes = {1, 2, 3, 4, 6} MaxOps = 2
INVARIANTS ForwardIsDct InverseUndoes EvenPlacesZero MirrorSound
CHECK_DEADLOCK FALSE
