SPECIFICATION Spec
CONSTANTS
  Kind = "memo"
  Threads = {t1, t2}
  Length = 1
INVARIANTS NoConflict
CHECK_DEADLOCK FALSE
