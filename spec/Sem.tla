-------------------------------- MODULE Sem --------------------------------
(***************************************************************************)
(* Meaning of expressions: value (Val), value and derivative (Dual), and   *)
(* value of vector-valued expressions (VVal), at a point e of the field.   *)
(*   e.x    values of variables 0..9                                       *)
(*   e.s    seed: values of function symbols and symbolic operations       *)
(***************************************************************************)
EXTENDS Field, Expr

NVars == 10
Env(s) == [x |-> [i \in 1..NVars |-> Mix(s + 3, i * i + 7 * s)], s |-> s]
Envs(n) == [j \in 1..n |-> Env(j * 17 + 1)]

VarVal(e, i) == IF i < NVars THEN e.x[i + 1] ELSE Mix(e.s + 11, i)
FsVal(e, n)  == Mix(e.s + 29, (n.i % P) * 64 + n.g)

(* field value of a constant node: v, or v times f(c) *)
FunVal(o, a) == CASE o = "id" -> a
                  [] o = "exp" -> FExp(a)
                  [] o = "sin" -> FSin(a)
                  [] o = "cos" -> FCos(a)
                  [] o = "tan" -> FTan(a)
                  [] o = "fabs" -> FAbs(a)
                  [] o = "sqrt" -> FSqrt(a)
                  [] o = "log" -> FLog(a)
                  [] o = "log10" -> FLog10(a)
ConstVal(n) == IF n.f = "" THEN n.v
               ELSE LET w == FunVal(n.f, n.c) IN IF w < 0 THEN Opaque ELSE FMul(n.v, w)

Bad(a, b) == IF a = Undef \/ b = Undef THEN Undef ELSE Opaque

OpCode(o) == CASE o = "grad" -> 3 [] o = "div" -> 5 [] o = "pd" -> 7 [] o = "int" -> 11 [] o = "sint" -> 13
                [] OTHER -> 17

(* The field's functions satisfy only some of the relations between numbers  *)
(* like exp(1), sin(1): a number built from several of them, or a modulus or *)
(* root of a number whose sign the field does not show, is left open.        *)
Plain(n) == n.k = "c" /\ n.z >= -30 /\ n.z <= 30
OpenNumber(n) == /\ Closed(n) /\ ~ConstArith(n)
                 /\ ~(n.k = "u" /\ (IF n.o \in {"fabs", "sqrt"} THEN Plain(n.a) ELSE ConstArith(n.a)))
(* The same holds for what is such a number once its vanishing parts are gone. *)
RECURSIVE Gone(_), Fixed(_), Rest(_)
Gone(n) == CASE n.k = "c" -> n.z = 0
             [] n.k = "b" -> IF n.o = "*" THEN Gone(n.a) \/ Gone(n.b) ELSE IF n.o = "/" THEN Gone(n.a) ELSE Gone(n.a) /\ Gone(n.b)
             [] n.k = "u" -> n.o \in {"id", "sin", "tan", "fabs", "sqrt"} /\ Gone(n.a)
             [] OTHER -> FALSE
Fixed(n) == CASE n.k = "c" -> TRUE
              [] n.k = "u" -> n.o \in Funcs /\ Fixed(n.a)
              [] n.k = "b" -> (Fixed(n.b) /\ Fixed(n.a)) \/ Gone(n)
              [] OTHER -> FALSE
Rest(n) == CASE Gone(n) -> [k |-> "c", z |-> 0]
             [] n.k = "u" -> [n EXCEPT !.a = Rest(n.a)]
             [] n.k = "b" -> [n EXCEPT !.a = Rest(n.a), !.b = Rest(n.b)]
             [] OTHER -> n
Open(n) == IF Closed(n) THEN OpenNumber(n) ELSE n.k \in {"u", "b"} /\ Fixed(n) /\ OpenNumber(Rest(n))
RECURSIVE Val(_, _), SymCode(_, _)
(* a number that identifies a symbolic operation with its parameters *)
SymCode(n, e) ==
  LET RECURSIVE S(_)
      S(j) == IF j = 0 THEN 0
              ELSE LET w == Val(n.x[j], e) IN (S(j - 1) * 31 + (IF w < 0 THEN 1 ELSE w)) % 9973
      q == IF Len(n.p) > 0 THEN n.p[1] % P ELSE 0
  IN (OpCode(n.o) * 37 + q * 101 + S(Len(n.x))) % 20011

Val(n, e) ==
  CASE n.k = "c" -> ConstVal(n)
    [] n.k = "v" -> VarVal(e, n.i)
    [] Open(n) -> Opaque
    [] n.k = "b" ->
         LET a == Val(n.a, e)
             b == Val(n.b, e)
         IN IF a < 0 \/ b < 0 THEN Bad(a, b)
            ELSE CASE n.o = "+" -> FAdd(a, b)
                   [] n.o = "-" -> FSub(a, b)
                   [] n.o = "*" -> FMul(a, b)
                   [] n.o = "/" -> FDiv(a, b)
                   [] OTHER -> Opaque
    [] n.k = "u" ->
         LET a == Val(n.a, e)
         IN IF a < 0 THEN a
            ELSE IF n.o \in Funcs THEN FunVal(n.o, a)
            ELSE Hash(SymCode(n, e), a)
    [] n.k = "f" -> FsVal(e, n)
    [] OTHER -> Opaque

(* ------------------------------------------------------------------ *)
(* Dual numbers: <<value, derivative>>, the derivative with respect to  *)
(* the node d (a variable or a function symbol).  <<u, _>> with u < 0   *)
(* if there is no value; derivative NoDer if there is none.             *)
NoDer == -7
RECURSIVE Dual(_, _, _)
Dual(n, d, e) ==
  CASE n.k = "c" -> <<ConstVal(n), 0>>
    [] n.k = "v" -> <<VarVal(e, n.i), IF d.k = "v" /\ d.i = n.i THEN 1 ELSE 0>>
    [] n.k = "f" -> <<FsVal(e, n), IF d.k = "f" THEN (IF Same(n, d) THEN 1 ELSE 0) ELSE NoDer>>
    [] Open(n) -> <<Opaque, 0>>
    [] n.k = "b" ->
         LET a == Dual(n.a, d, e)
             b == Dual(n.b, d, e)
         IN IF a[1] < 0 \/ b[1] < 0 THEN <<Bad(a[1], b[1]), 0>>
            ELSE IF a[2] < 0 \/ b[2] < 0 THEN <<Val(n, e), NoDer>>
            ELSE CASE n.o = "+" -> <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
                   [] n.o = "-" -> <<FSub(a[1], b[1]), FSub(a[2], b[2])>>
                   [] n.o = "*" -> <<FMul(a[1], b[1]),
                                     FAdd(FMul(a[2], b[1]), FMul(a[1], b[2]))>>
                   [] n.o = "/" ->
                        IF b[1] = 0 THEN <<Undef, 0>>
                        ELSE LET q == FDiv(a[1], b[1])
                             IN <<q, FDiv(FSub(a[2], FMul(q, b[2])), b[1])>>
                   [] OTHER -> <<Opaque, 0>>
    [] n.k = "u" ->
         LET a == Dual(n.a, d, e)
         IN IF a[1] < 0 THEN <<a[1], 0>>
            ELSE LET v == IF n.o \in Funcs THEN FunVal(n.o, a[1]) ELSE Hash(SymCode(n, e), a[1])
                 IN IF v < 0 THEN <<v, 0>>
                    ELSE IF a[2] < 0 THEN <<v, NoDer>>
                    ELSE CASE n.o = "id"  -> <<v, a[2]>>
                           [] n.o = "exp" -> <<v, FMul(v, a[2])>>
                           [] n.o = "sin" -> <<v, FMul(FCos(a[1]), a[2])>>
                           [] n.o = "cos" -> <<v, FNeg(FMul(FSin(a[1]), a[2]))>>
                           [] n.o = "tan" -> LET c == FCos(a[1]) IN <<v, FDiv(a[2], FMul(c, c))>>
                           [] n.o = "sqrt" -> IF v = 0 THEN <<Undef, 0>>
                                              ELSE <<v, FDiv(a[2], FMul(2, v))>>
                           [] n.o = "log" -> <<v, FDiv(a[2], a[1])>>
                           [] n.o = "log10" -> <<v, FDiv(a[2], FMul(Ln10, a[1]))>>
                           [] n.o = "grad" -> IF d.k = "f" THEN <<v, Hash(SymCode(n, e), a[2])>>
                                              ELSE <<v, NoDer>>
                           [] OTHER -> <<v, NoDer>>
    [] OTHER -> <<Opaque, 0>>

(* ------------------------------------------------------------------ *)
(* Vector values: sequences of values (a scalar is a sequence of length *)
(* 1); <<>> stands for a formula that makes no sense as a vector.       *)
RECURSIVE VVal(_, _)
Op2(o, x, y) == IF x < 0 \/ y < 0 THEN Bad(x, y)
                ELSE CASE o = "+" -> FAdd(x, y) [] o = "-" -> FSub(x, y)
                       [] o = "*" -> FMul(x, y) [] o = "/" -> FDiv(x, y)
                       [] OTHER -> Opaque
Lift2(o, a, b) == [j \in 1..Len(a) |-> Op2(o, a[j], b[j])]
Rep(a, n) == [j \in 1..n |-> a[1]]
RECURSIVE DotTo(_, _, _)
DotTo(a, b, j) == IF j = 0 THEN 0 ELSE Op2("+", DotTo(a, b, j - 1), Op2("*", a[j], b[j]))
VVal(n, e) ==
  CASE n.k = "w" -> LET r == [j \in 1..Len(n.e) |-> VVal(n.e[j], e)]
                    IN IF \E j \in 1..Len(r) : Len(r[j]) # 1 THEN <<>>
                       ELSE [j \in 1..Len(r) |-> r[j][1]]
    [] Open(n) -> <<Opaque>>
    [] n.k = "b" ->
         LET a == VVal(n.a, e)
             b == VVal(n.b, e)
         IN IF a = <<>> \/ b = <<>> THEN <<>>
            ELSE IF Len(a) = 1 /\ Len(b) > 1 THEN Lift2(n.o, Rep(a, Len(b)), b)
            ELSE IF Len(b) = 1 /\ Len(a) > 1 THEN Lift2(n.o, a, Rep(b, Len(a)))
            ELSE IF Len(a) # Len(b) THEN <<>>
            ELSE IF n.o = "*" THEN <<DotTo(a, b, Len(a))>>
            ELSE Lift2(n.o, a, b)
    [] n.k = "u" ->
         LET a == VVal(n.a, e)
         IN [j \in 1..Len(a) |-> IF a[j] < 0 THEN a[j]
                                 ELSE IF n.o \in Funcs THEN FunVal(n.o, a[j])
                                 ELSE Hash(SymCode(n, e), a[j])]
    [] OTHER -> <<Val(n, e)>>

(* ------------------------------------------------------------------ *)
(* Claims about pairs of expressions *)
KEnv == 6
Es == Envs(KEnv)
(* Real values, where an observation brings them along (q: at three points;   *)
(* qd: the derivative): intervals (m +- r) * 2^e, r < 0 if unknown.            *)
Down(m, s) == IF s = 0 THEN m ELSE IF s > 30 THEN 0 ELSE m \div (2^s)
Near(x, y) ==
  \/ x.r < 0 \/ y.r < 0
  \/ LET e == IF x.e > y.e THEN x.e ELSE y.e
         d == Down(x.m, e - x.e) - Down(y.m, e - y.e)
     IN (IF d < 0 THEN -d ELSE d) - Down(x.r, e - x.e) <= Down(y.r, e - y.e) + 4
NearAll(s, t) == \A j \in 1..Len(s) : Near(s[j], t[j])
NearValue(n, m) == ("q" \in DOMAIN n /\ "q" \in DOMAIN m) => NearAll(n.q, m.q)

(* m refines n: wherever n has a value, m has the same *)
SameValue(n, m) ==
  /\ \A j \in 1..KEnv :
       LET a == Val(n, Es[j]) IN a < 0 \/ (LET b == Val(m, Es[j]) IN b = a \/ b = Opaque)
  /\ NearValue(n, m)
SameVValue(n, m) ==
  \A j \in 1..KEnv :
     LET a == VVal(n, Es[j])
         b == VVal(m, Es[j])
     IN \/ a = <<>> \/ \E q \in 1..Len(a) : a[q] < 0
        \/ Len(a) = Len(b) /\ \A q \in 1..Len(a) : b[q] = a[q] \/ b[q] = Opaque
(* number of points at which the comparison said something *)
Decided(n, m) == Cardinality({j \in 1..KEnv : Val(n, Es[j]) >= 0 /\ Val(m, Es[j]) >= 0})

(* m is the derivative of n with respect to d wherever n is differentiable *)
IsDerivative(n, d, m) ==
  /\ \A j \in 1..KEnv :
       LET a == Dual(n, d, Es[j])
       IN a[1] < 0 \/ a[2] < 0 \/ (LET b == Val(m, Es[j]) IN b = a[2] \/ b = Opaque)
  /\ ("qd" \in DOMAIN n /\ "q" \in DOMAIN m) => NearAll(n.qd, m.q)
DecidedD(n, d, m) == Cardinality({j \in 1..KEnv :
     LET a == Dual(n, d, Es[j]) IN a[1] >= 0 /\ a[2] >= 0 /\ Val(m, Es[j]) >= 0})
=============================================================================
