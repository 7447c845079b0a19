------------------------------ MODULE FieldLaws ------------------------------
(* The value domain satisfies, at every one of its elements, the relations   *)
(* between numbers and functions that the library's rules rely on.           *)
EXTENDS Field, TLC, IOUtils
Span == atoi(IOEnv.SPAN)      \* 491: all of the field
VARIABLE a
Init == a \in {q * 491 : q \in 0..63}
Next == (a + 1) % 491 # 0 /\ (a + 1) % 491 < Span /\ a + 1 < P /\ a' = a + 1
Spec == Init /\ [][Next]_a
(* a few partners for a *)
Bs == {0, 1, 2, 3, P - 1, FMul(a, 5), FAdd(a, 7)}
Arithmetic ==
  /\ FAdd(a, FNeg(a)) = 0 /\ (a # 0 => FMul(a, FInv(a)) = 1 /\ FInv(FInv(a)) = a) /\ FDiv(a, 0) = Undef
  /\ \A b \in Bs : /\ FAdd(a, b) = FAdd(b, a) /\ FMul(a, b) = FMul(b, a) /\ FSub(FAdd(a, b), b) = a
                   /\ (b # 0 => FMul(FDiv(a, b), b) = a)
                   /\ \A c \in {2, FMul(a, a)} : FMul(a, FAdd(b, c)) = FAdd(FMul(a, b), FMul(a, c)) /\ FMul(a, FMul(b, c)) = FMul(FMul(a, b), c) /\ FAdd(a, FAdd(b, c)) = FAdd(FAdd(a, b), c)
Roots ==
  /\ (FSqrt(a) # Undef => FMul(FSqrt(a), FSqrt(a)) = a) /\ FSqrt(FMul(a, a)) = FAbs(a)
  /\ FAbs(FNeg(a)) = FAbs(a) /\ FAbs(FAbs(a)) = FAbs(a) /\ FAbs(a) \in {a, FNeg(a)}
  /\ (a # 0 => (FSqrt(a) = Undef) # (FSqrt(FNeg(a)) = Undef))
  /\ \A b \in Bs : FAbs(FMul(a, b)) = FMul(FAbs(a), FAbs(b))
Functions ==
  /\ FAdd(FMul(FSin(a), FSin(a)), FMul(FCos(a), FCos(a))) = 1
  /\ FSin(FNeg(a)) = FNeg(FSin(a)) /\ FCos(FNeg(a)) = FCos(a)
  /\ (FCos(a) # 0 => FMul(FTan(a), FCos(a)) = FSin(a) /\ FAdd(1, FMul(FTan(a), FTan(a))) = FInv(FMul(FCos(a), FCos(a))))
  /\ (FLog(a) # Undef <=> (a # 0 /\ FSqrt(a) # Undef)) /\ (FLog(a) # Undef => FLog(FInv(a)) = FNeg(FLog(a)) /\ FMul(FLog10(a), Ln10) = FLog(a))
  /\ FLog10(10) = 1 /\ FExp(0) = 1 /\ FSin(0) = 0 /\ FCos(0) = 1 /\ FLog(1) = 0
=============================================================================
