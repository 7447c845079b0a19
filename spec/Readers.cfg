SPECIFICATION Spec
CONSTANTS
  Kind = "pure"
  Threads = {t1, t2}
  Length = 2
INVARIANTS NoConflict AnswersAlone NeverStuck
CHECK_DEADLOCK FALSE
