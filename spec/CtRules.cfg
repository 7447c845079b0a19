SPECIFICATION Spec
INVARIANTS StepsIffNotExpanded PolyLaw IntLaw CoefLaw SplitLaw ShiftLaw WrittenLaw ShapeLaw
PROPERTIES KeepsValue Decreases
CHECK_DEADLOCK FALSE
