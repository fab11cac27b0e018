SPECIFICATION Spec
CONSTANTS
 Script <- TheScript
 N <- TheN
 Counted <- TheCounted
INVARIANTS Bounded CountOK
PROPERTIES Contract Finishes
CHECK_DEADLOCK FALSE
