SPECIFICATION Spec
CONSTANTS Top = 40
INVARIANTS Align AlignLaws Morton Mirror Lattice
CHECK_DEADLOCK FALSE
