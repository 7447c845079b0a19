------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Exact arithmetic in the prime field F_P, used as the value domain of    *)
(* expressions.  An identity between expressions that the library claims   *)
(* ("simplify preserves the value", "this is the derivative") must hold in *)
(* every field; testing it at a few points of F_P decides it with          *)
(* probability 1 - O(degree/P) per point and without rounding.             *)
(*                                                                         *)
(* P = 31391 is = 3 (mod 4), P^2 fits TLC's 32-bit integers, and every     *)
(* prime below 31 is a quadratic residue, so small positive rationals are  *)
(* "positive" (squares) and small negative ones are not: square root and   *)
(* modulus of small rationals are the usual ones.                          *)
(*                                                                         *)
(* Values: 0..P-1, Undef (no value: division by zero, root of a non-square)*)
(* and Opaque (a constant whose exact value the observer could not name).  *)
(***************************************************************************)
EXTENDS Integers, Sequences

P == 31391
Undef  == -1
Opaque == -2

FAdd(a, b) == (a + b) % P
FSub(a, b) == (a - b + P) % P
FMul(a, b) == (a * b) % P
FNeg(a)    == (P - a) % P

RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN 1
              ELSE LET h == FPow(a, n \div 2)
                       s == FMul(h, h)
                   IN IF n % 2 = 1 THEN FMul(s, a) ELSE s

FInv(a)    == FPow(a, P - 2)               \* a # 0
FDiv(a, b) == IF b = 0 THEN Undef ELSE FMul(a, FInv(b))

(* the canonical square root is the one that is itself a square *)
FSqrt(a)   == LET r == FPow(a, (P + 1) \div 4)
              IN IF FMul(r, r) = a THEN r ELSE Undef
FAbs(a)    == IF a = 0 THEN 0 ELSE IF FPow(a, (P - 1) \div 2) = 1 THEN a ELSE FNeg(a)

Cube(a) == FMul(a, FMul(a, a))

(* Interpretations of the transcendental functions.  They satisfy the      *)
(* relations the library's rules rely on (s^2 + c^2 = 1, t = s/c, sin odd, *)
(* log10 = ln / ln 10) and are otherwise arbitrary.                        *)
Angle(a) == FAdd(FMul(12345, Cube(a)), FMul(677, a))           \* odd
SinD(a)  == LET t == Angle(a) IN FAdd(1, FMul(t, t))            \* never 0: -1 is a non-square
FSin(a)  == LET t == Angle(a) IN FDiv(FMul(2, t), SinD(a))
FCos(a)  == LET t == Angle(a) IN FDiv(FSub(1, FMul(t, t)), SinD(a))
FTan(a)  == FDiv(FSin(a), FCos(a))
FExp(a)  == IF a = 0 THEN 1 ELSE FAdd(FMul(a, FAdd(FMul(777, a), 4242)), 1)
IsSq(a)  == FPow(a, (P - 1) \div 2) = 1
FLog(a)  == IF a = 0 \/ ~IsSq(a) THEN Undef        \* "negative"
            ELSE LET m == FSub(a, FInv(a))      \* ln 1 = 0, ln (1/a) = - ln a
                 IN FAdd(FMul(311, Cube(m)), FMul(1789, m))
Ln10     == FLog(10)
FLog10(a) == LET m == FLog(a) IN IF m = Undef THEN Undef ELSE FMul(m, FInv(Ln10))

(* an odd hash, for operations that are left uninterpreted; Hash(s,0) = 0 *)
Hash(s, a) == FAdd(FMul((s * 7919 + 104729) % P, Cube(a)), FMul((s * 613 + 31) % P, a))
(* an arbitrary value per pair, never 0 *)
Mix(s, b)  == LET a == b % P IN 1 + ((s * 10007 + a * 7333 + s * a * 97 + 4241) % (P - 1))
=============================================================================
