SPECIFICATION Spec
CONSTANTS
  Objs = {a, b}
  Ids = {1, 2, 3, 4, 5, 6}
  MaxTree = 4
INVARIANTS OneOwner NothingLost
PROPERTIES Stored Frame Others
CHECK_DEADLOCK FALSE
