SPECIFICATION Spec
CONSTANTS N = 3 Ops = 3
INVARIANTS NoReuse InStep ForkedApart Private
