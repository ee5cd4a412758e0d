SPECIFICATION Spec
CONSTANTS Top = 12
INVARIANTS Align AlignLaws Morton Mirror Lattice
CHECK_DEADLOCK FALSE
