-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Univariate polynomials over the field (sequences of coefficients, low   *)
(* order first): an expression seen as a polynomial in one variable, all    *)
(* others bound at a point; its definite integral, its degree.              *)
(***************************************************************************)
EXTENDS Sem

PMax(a, b) == IF a > b THEN a ELSE b
PAt(p, j) == IF j <= Len(p) THEN p[j] ELSE 0
PAdd(p, q) == [j \in 1..PMax(Len(p), Len(q)) |-> FAdd(PAt(p, j), PAt(q, j))]
PSub(p, q) == [j \in 1..PMax(Len(p), Len(q)) |-> FSub(PAt(p, j), PAt(q, j))]
PMul(p, q) == [j \in 1..(Len(p) + Len(q) - 1) |->
                 LET RECURSIVE S(_)
                     S(i) == IF i = 0 THEN 0 ELSE FAdd(S(i - 1), FMul(PAt(p, i), IF j - i + 1 >= 1 THEN PAt(q, j - i + 1) ELSE 0))
                 IN S(PMax(1, Len(p)))]
PScale(p, a) == [j \in 1..Len(p) |-> FMul(p[j], a)]
(* d a variable or function symbol; <<>> if n is not a polynomial in d at e *)
RECURSIVE PolyOf(_, _, _)
PolyOf(n, d, e) ==
  IF Same(n, d) THEN <<0, 1>>
  ELSE CASE n.k \in {"c", "v", "f"} -> LET v == Val(n, e) IN IF v < 0 THEN <<>> ELSE <<v>>
         [] n.k = "b" ->
              LET a == PolyOf(n.a, d, e)
                  b == PolyOf(n.b, d, e)
              IN IF a = <<>> \/ b = <<>> THEN <<>>
                 ELSE CASE n.o = "+" -> PAdd(a, b)
                        [] n.o = "-" -> PSub(a, b)
                        [] n.o = "*" -> PMul(a, b)
                        [] n.o = "/" -> IF Occurs(d, n.b) \/ b[1] = 0 THEN <<>> ELSE PScale(a, FInv(b[1]))
                        [] OTHER -> <<>>
         [] OTHER -> <<>>
(* sum of c_k (u^(k+1) - l^(k+1)) / (k+1) *)
PIntegral(p, l, u) ==
  LET RECURSIVE S(_)
      S(j) == IF j = 0 THEN 0
              ELSE FAdd(S(j - 1), FMul(FMul(p[j], FInv(j % P)), FSub(FPow(u, j), FPow(l, j))))
  IN S(Len(p))
(* m is the integral of n over [lo, hi] with respect to d *)
IsIntegral(n, d, lo, hi, m) ==
  \A j \in 1..KEnv :
     LET p == PolyOf(n, d, Es[j])
         l == Val(lo, Es[j])
         u == Val(hi, Es[j])
     IN p = <<>> \/ l < 0 \/ u < 0 \/ Val(m, Es[j]) \in {PIntegral(p, l, u), Opaque}
(* at most linear in d, as far as the points show; PolyOk: a polynomial at all *)
PolyOk(n, d) == \A j \in 1..KEnv : PolyOf(n, d, Es[j]) # <<>>
IsLinear(n, d) == \A j \in 1..KEnv : LET p == PolyOf(n, d, Es[j]) IN p # <<>> /\ \A q \in 3..Len(p) : p[q] = 0
(* the highest power of d written down in a term of n, whether or not its coefficient vanishes *)
RECURSIVE Written(_, _)
Written(n, d) == IF Same(n, d) THEN 1
                 ELSE IF n.k # "b" THEN 0
                 ELSE CASE n.o = "*" -> Written(n.a, d) + Written(n.b, d)
                        [] n.o = "/" -> Written(n.a, d)
                        [] OTHER -> PMax(Written(n.a, d), Written(n.b, d))
(* coefficient and rest of an expression that is linear in d *)
CoefIs(n, d, q, m) ==
  \A j \in 1..KEnv : LET p == PolyOf(n, d, Es[j]) IN p = <<>> \/ Val(m, Es[j]) \in {PAt(p, q), Opaque}
(* n is d times m plus n at d = 0: m is the polynomial n shifted by one power *)
PShifted(p, q) == \A i \in 1..PMax(Len(p), Len(q) + 1) : PAt(q, i) = PAt(p, i + 1)
CoefPolyIs(n, d, m) ==
  \A j \in 1..KEnv : LET p == PolyOf(n, d, Es[j])
                         q == PolyOf(m, d, Es[j])
                     IN p = <<>> \/ Val(m, Es[j]) = Opaque \/ (q # <<>> /\ PShifted(p, q))
=============================================================================
