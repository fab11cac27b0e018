SPECIFICATION Spec
CONSTANTS
 Script <- TheScript
 N <- TheN
 Cache <- TheCache
 Defect <- TheDefect
INVARIANTS OneEach TagOK AllFree
PROPERTIES Contract Finishes
CHECK_DEADLOCK FALSE
