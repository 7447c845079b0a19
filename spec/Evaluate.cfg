SPECIFICATION Spec
INVARIANTS ValueIsVal RaisesAllowed NeverStuck RaisesIff
CHECK_DEADLOCK FALSE
