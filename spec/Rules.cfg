SPECIFICATION Spec
INVARIANTS StepsIffNotNormal Strategy
PROPERTIES KeepsValue Decreases
CHECK_DEADLOCK FALSE
