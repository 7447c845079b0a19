------------------------------- MODULE CtRules -------------------------------
(***************************************************************************)
(* The compile-time part: multiplying out as a transition system, and the   *)
(* laws of the polynomial reference against which integration, coefficients *)
(* and conversion are judged.                                               *)
(***************************************************************************)
EXTENDS CtProps, IOUtils
MaxSize == atoi(IOEnv.MAX_SIZE)
VARIABLES t, ph
vars == <<t, ph>>
KF(v) == [k |-> "c", t |-> "d", h |-> ToString(v), z |-> v, v |-> v, f |-> "", c |-> 0]
X == Var(0)
Y == Var(1)
Leaves == {X, Y, KF(2)}
Bits == Leaves \cup {Bin(o, a, b) : o \in {"+", "-", "*"}, a \in {X, KF(3)}, b \in {Y}} \cup {Bin("/", X, KF(2)), Bin("/", Bin("+", X, KF(1)), Y)}

(* one step of multiplying out *)
RECURSIVE Rewrites(_)
Local(n) ==
  IF n.k # "b" \/ n.o # "*" THEN {}
  ELSE (IF n.a.k = "b" /\ n.a.o \in {"+", "-"} THEN {Bin(n.a.o, Bin("*", n.a.a, n.b), Bin("*", n.a.b, n.b))} ELSE {})
       \cup (IF n.b.k = "b" /\ n.b.o \in {"+", "-"} THEN {Bin(n.b.o, Bin("*", n.a, n.b.a), Bin("*", n.a, n.b.b))} ELSE {})
       \cup (IF n.a.k = "b" /\ n.a.o = "/" /\ SumIn(n.a.a) THEN {Bin("/", Bin("*", n.a.a, n.b), n.a.b)} ELSE {})
       \cup (IF n.b.k = "b" /\ n.b.o = "/" /\ SumIn(n.b.a) THEN {Bin("/", Bin("*", n.a, n.b.a), n.b.b)} ELSE {})
Rewrites(n) == Local(n) \cup (IF n.k # "b" THEN {} ELSE {[n EXCEPT !.a = q] : q \in Rewrites(n.a)} \cup (IF n.o = "/" THEN {} ELSE {[n EXCEPT !.b = q] : q \in Rewrites(n.b)}))
RECURSIVE Weight(_)
Weight(n) == IF n.k # "b" THEN 2
             ELSE CASE n.o \in {"+", "-"} -> Weight(n.a) + Weight(n.b) + 1
                    [] n.o = "*" -> Weight(n.a) * Weight(n.b)
                    [] OTHER -> Weight(n.a) + 1
Init == t \in Leaves /\ ph = "grow"
Grow == /\ ph = "grow" /\ ph' = "grow"
        /\ \E l \in Bits, o \in Arith : t' \in {Bin(o, t, l), Bin(o, l, t)}
        /\ Size(t') <= MaxSize
Start == ph = "grow" /\ ph' = "run" /\ t' = t
Run == ph = "run" /\ ph' = "run" /\ t' \in Rewrites(t)
Next == Grow \/ Start \/ Run
Spec == Init /\ [][Next]_vars
KeepsValue == [][ph = "run" => SameValue(t, t')]_vars
Decreases == [][ph = "run" => Weight(t') < Weight(t)]_vars
StepsIffNotExpanded == Expanded(t) <=> Rewrites(t) = {}

(* ---- polynomials: checked on every formula before it is multiplied out ---- *)
G == ph = "grow"
RECURSIVE Horner(_, _, _)
Horner(p, x, j) == IF j > Len(p) THEN 0 ELSE FAdd(p[j], FMul(x, Horner(p, x, j + 1)))
Deriv(p) == [j \in 1..(Len(p) - 1) |-> FMul(j % P, p[j + 1])]
PolyLaw == G => \A j \in 1..2 : LET p == PolyOf(t, X, Es[j]) v == Val(t, Es[j]) IN
   /\ (p = <<>> <=> v < 0 \/ PolyOf(t, X, Es[j]) = <<>>)
   /\ (p # <<>> /\ v >= 0 => Horner(p, Val(X, Es[j]), 1) = v)
   /\ (p # <<>> /\ v >= 0 => Dual(t, X, Es[j])[2] = Horner(Deriv(p), Val(X, Es[j]), 1))
(* the integral is the one whose derivative by the upper bound is the integrand, additive in the interval *)
IntLaw == G => LET p == PolyOf(t, X, Es[1]) IN p = <<>> \/
   /\ PIntegral(p, 5, 5) = 0 /\ PIntegral(p, 2, 7) = FNeg(PIntegral(p, 7, 2))
   /\ FAdd(PIntegral(p, 2, 11), PIntegral(p, 11, 7)) = PIntegral(p, 2, 7)
   /\ Deriv(<<0>> \o [j \in 1..Len(p) |-> FMul(p[j], FInv(j % P))]) = p
   /\ PIntegral(p, 0, 9) = Horner(<<0>> \o [j \in 1..Len(p) |-> FMul(p[j], FInv(j % P))], 9, 1)
(* an expression linear in X is X times its coefficient plus its rest *)
CoefLaw == G => (IsLinear(t, X) => \A j \in 1..KEnv : LET p == PolyOf(t, X, Es[j]) v == Val(t, Es[j]) IN v < 0 \/ v = FAdd(FMul(Val(X, Es[j]), PAt(p, 2)), PAt(p, 1)))
(* the polynomial is X times the shifted one plus its value at X = 0, which is what dropping the terms with X leaves *)
SplitLaw == G => \A j \in 1..KEnv : LET p == PolyOf(t, X, Es[j]) v == Val(t, Es[j]) IN p = <<>> \/ v < 0 \/
   (v = FAdd(FMul(Val(X, Es[j]), Horner(p, Val(X, Es[j]), 2)), PAt(p, 1)) /\ PAt(p, 1) = Horner(p, 0, 1))
ShiftLaw == G => \A j \in 1..KEnv : LET p == PolyOf(t, X, Es[j]) IN p = <<>> \/ (PShifted(PMul(<<0, 1>>, p), p) /\ (PShifted(p, p) <=> \A i \in 1..Len(p) : p[i] = 0))
WrittenLaw == G => (PolyOk(t, X) /\ Written(t, X) <= 1 => IsLinear(t, X)) /\ (Written(t, X) = 0 /\ PolyOk(t, X) => \A j \in 1..KEnv : Len(PolyOf(t, X, Es[j])) = 1 \/ Occurs(X, t))
ShapeLaw == G => SameShape(t, t) /\ (\A l \in Leaves : SameShape(t, l) => SameValue(t, l))
=============================================================================
