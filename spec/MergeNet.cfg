SPECIFICATION Spec
CONSTANT MaxN = 13
INVARIANTS Disjoint BlocksSorted Sorted
PROPERTY Permutes
