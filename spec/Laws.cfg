SPECIFICATION Spec
INVARIANTS DiffLaw DiffSharp SubstLaw StructLaw LatexLaw QuadLaw CoordLaw VecLaw SubIntLaw PrintLaw
CHECK_DEADLOCK FALSE
