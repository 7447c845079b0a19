-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of the operations of the specification itself, checked on every     *)
(* formula up to a size: the definitions against which the library is       *)
(* judged agree with each other.                                            *)
(*   differentiation rules (Diff) against dual numbers (IsDerivative)       *)
(*   substitution against binding, and its structural laws                  *)
(*   sameness, traversal, manipulation, constancy                           *)
(*   LaTeX: a printed formula reads back as itself                          *)
(*   quadrature: the midpoint rule is exact for integrands of degree one    *)
(*   coordinate systems leave no operator of the unknowns behind            *)
(***************************************************************************)
EXTENDS Props, IOUtils

MaxSize == atoi(IOEnv.MAX_SIZE)
Law == IOEnv.LAW
VARIABLE t

KF(v) == [k |-> "c", t |-> "d", h |-> ToString(v), z |-> v, v |-> v, f |-> "", c |-> 0]
K(z) == KF((z + P) % P)
UnP(o, p, x, a) == [k |-> "u", o |-> o, p |-> p, x |-> x, a |-> a]
U == Fs(0, 0)
V == Fs(0, 1)
X == Var(0)
Y == Var(1)
NeedsSym == Law \in {"diff", "subst", "struct", "print", "latex", "subint"}
W1 == Vec(<<X, K(2)>>)
W2 == Vec(<<Bin("-", X, Y), Y>>)
Leaves == IF Law = "vec" THEN {W1, W2} ELSE {X, Y, K(2)} \cup (IF Law = "coord" THEN {U, V} ELSE IF Law = "quad" THEN {K(0)} ELSE {U, K(0)})
Heads == CASE Law \in {"quad", "vec"} -> {}
           [] Law = "coord" -> {"grad", "div", "sin"}
           [] Law \in {"struct", "subint", "print"} -> {"sin", "grad"}
           [] Law = "diff" -> Funcs \cup {"grad", "div"}
           [] OTHER -> Funcs \cup {"grad", "div"}
Ops == IF Law = "quad" THEN {"+", "-", "*"} ELSE Arith
Bits == IF Law = "vec" THEN {W1, W2, X, Y, K(2)} ELSE Leaves \cup (IF Law \in {"subint", "struct", "coord", "subst", "print"} THEN {Bin(o, a, b) : o \in {"+", "-"}, a \in {X, K(2)}, b \in {Y}} ELSE
                     {Bin(o, a, b) : o \in Ops, a \in {X, K(2)}, b \in {X, Y}})
Wrap(n) == {Un(h, n) : h \in Heads}
           \cup (IF NeedsSym THEN {UnP("pd", <<1>>, <<>>, n), UnP("sint", <<3>>, <<>>, n), UnP("int", <<1>>, <<K(0), X>>, n)} ELSE {})

Init == t \in Leaves
Next == /\ \/ t' \in Wrap(t)
           \/ \E l \in Bits, o \in Ops : t' \in {Bin(o, t, l), Bin(o, l, t)}
        /\ Size(t') <= MaxSize
Spec == Init /\ [][Next]_t

(* ---- differentiation rules ---- *)
RECURSIVE Diff(_, _)
Diff(n, d) ==
  CASE n.k = "c" -> K(0)
    [] n.k = "v" -> IF Same(n, d) THEN K(1) ELSE K(0)
    [] n.k = "f" -> IF Same(n, d) THEN K(1) ELSE K(0)
    [] n.k = "b" ->
         LET a == Diff(n.a, d) b == Diff(n.b, d) IN
         CASE n.o \in {"+", "-"} -> Bin(n.o, a, b)
           [] n.o = "*" -> Bin("+", Bin("*", a, n.b), Bin("*", n.a, b))
           [] OTHER -> Bin("/", Bin("-", Bin("*", a, n.b), Bin("*", n.a, b)), Bin("*", n.b, n.b))
    [] OTHER ->
         LET a == Diff(n.a, d) IN
         CASE n.o = "id" -> a
           [] n.o = "exp" -> Bin("*", n, a)
           [] n.o = "sin" -> Bin("*", Un("cos", n.a), a)
           [] n.o = "cos" -> Bin("-", K(0), Bin("*", Un("sin", n.a), a))
           [] n.o = "tan" -> Bin("*", Bin("+", K(1), Bin("*", n, n)), a)
           [] n.o = "sqrt" -> Bin("/", a, Bin("*", K(2), n))
           [] n.o = "log" -> Bin("/", a, n.a)
           [] n.o = "log10" -> Bin("/", a, Bin("*", KF(Ln10), n.a))
           [] n.o = "grad" -> Un("grad", a)
           [] OTHER -> NoTree
Ds == {X, Y, U}
(* every formula with a rule has exactly one derivative and it is the one   *)
(* dual numbers give; formulas without a rule have no derivative there      *)
DiffLaw == Law = "diff" => \A d \in Ds : IF NoRule(t, d) THEN TRUE ELSE IsDerivative(t, d, Diff(t, d))
(* the rules are the only ones: adding a constant or a factor is noticed    *)
DiffSharp == Law = "diff" => \A d \in Ds :
   NoRule(t, d) \/ (\A j \in 1..KEnv : LET a == Dual(t, d, Es[j]) IN a[1] < 0 \/ a[2] < 0)
   \/ ~IsDerivative(t, d, Bin("+", Diff(t, d), K(1))) \/ \A j \in 1..KEnv : Val(Diff(t, d), Es[j]) = Opaque

(* ---- substitution ---- *)
Rs == {K(2), Y, Bin("+", X, Y), Un("sin", X)}
(* no partial derivative or integral is crossed *)
RECURSIVE Plainly(_)
Plainly(n) == CASE n.k = "u" -> n.o \in Funcs /\ Plainly(n.a) [] n.k = "b" -> Plainly(n.a) /\ Plainly(n.b) [] OTHER -> TRUE
Bind(e, i, v) == [e EXCEPT !.x[i + 1] = v]
SubstLaw == Law = "subst" =>
  \A r \in Rs :
     /\ Same(Subst(t, <<X>>, <<X>>), t)
     /\ Same(Subst(t, <<t>>, <<r>>), r)
     /\ ~Occurs(X, t) => Same(Subst(t, <<X>>, <<r>>), t)
     /\ ~Occurs(U, Subst(t, <<U>>, <<r>>))
     /\ Plainly(t) => \A j \in 1..KEnv :
          LET w == Val(r, Es[j]) IN w < 0 \/ LET a == Val(t, Bind(Es[j], 0, w)) b == Val(Subst(t, <<X>>, <<r>>), Es[j]) IN a = b \/ a = Opaque \/ b = Opaque
     (* simultaneous: exchanging twice changes nothing; the first match wins *)
     /\ Same(Subst(Subst(t, <<X, Y>>, <<Y, X>>), <<X, Y>>, <<Y, X>>), t)
     /\ Same(Subst(t, <<X, X>>, <<r, K(0)>>), Subst(t, <<X>>, <<r>>))

(* ---- structure ---- *)
RECURSIVE Mirror(_)
Mirror(n) == CASE n.k = "u" -> [n EXCEPT !.a = Mirror(n.a)] [] n.k = "b" -> [n EXCEPT !.a = Mirror(n.b), !.b = Mirror(n.a)] [] OTHER -> n
StructLaw == Law = "struct" =>
  /\ Same(t, t) /\ Same(Mirror(Mirror(t)), t) /\ (Same(Mirror(t), t) <=> Same(t, Mirror(t)))
  /\ (Same(t, Mirror(t)) <=> t = Mirror(t))
  /\ Len(Visit(t, {"all"})) = Size(t) /\ Rng(Visit(t, {"all"})) = {m \in Rng(Visit(t, {"all"})) : Occurs(m, t)}
  /\ Same(Manip(t, {}), t) /\ Same(Manip(t, {"all"}), Mark(t))
  /\ (Occurs(X, t) \/ Occurs(Y, t)) <=> ~Same(Manip(t, {"v"}), t)
  /\ (ConstArith(t) => Closed(t)) /\ (Closed(t) => ~DependsOn(t))
  /\ (Closed(t) <=> (~DependsOn(t) /\ ~HasSym(t)))

(* ---- LaTeX ---- *)
T(s) == [t |-> s, s |-> "", i |-> 0, n |-> NoTree]
TN(s, n) == [t |-> s, s |-> "", i |-> 0, n |-> n]
RECURSIVE LPrint(_), LPrintIn(_)
LName(n) == [t |-> "name", s |-> DefaultName(n), i |-> 0, n |-> NoTree]
FName(o) == CHOOSE s \in DOMAIN FunName : FunName[s] = o
LPrintIn(n) == IF n.k = "b" THEN <<T("(")>> \o LPrint(n) \o <<T(")")>> ELSE LPrint(n)
LPrint(n) ==
  CASE n.k = "c" -> <<TN("num", n)>>
    [] n.k \in {"v", "f"} -> <<LName(n)>>
    [] n.k = "b" -> IF n.o = "/" THEN <<T("frac"), T("{")>> \o LPrint(n.a) \o <<T("}"), T("{")>> \o LPrint(n.b) \o <<T("}")>>
                    ELSE LPrintIn(n.a) \o <<T(IF n.o = "*" THEN "cdot" ELSE n.o)>> \o LPrintIn(n.b)
    [] n.o = "id" -> LPrint(n.a)
    [] n.o = "sqrt" -> <<T("sqrt"), T("{")>> \o LPrint(n.a) \o <<T("}")>>
    [] n.o = "fabs" -> <<T("left|")>> \o LPrint(n.a) \o <<T("right|")>>
    [] n.o = "pd" -> <<T("frac"), T("{"), T("partial")>> \o LPrintIn(n.a) \o <<T("}"), T("{"), T("partial"), LName(Var(n.p[1])), T("}")>>
    [] n.o = "sint" -> <<[T("sint") EXCEPT !.i = n.p[1]]>> \o LPrint(n.a) \o <<T("d"), T("omega")>>
    [] n.o = "int" -> <<T("int"), T("[")>> \o LPrint(n.x[1]) \o <<T(";")>> \o LPrint(n.x[2]) \o <<T("]"), T("}")>> \o LPrint(n.a) \o <<T("d"), LName(Var(n.p[1]))>>
    [] n.o = "grad" -> <<T("nabla")>> \o LPrintIn(n.a)
    [] n.o = "div" -> <<T("nabla"), T("cdot")>> \o LPrintIn(n.a)
    [] OTHER -> <<[T("fun") EXCEPT !.s = FName(n.o)], T("left(")>> \o LPrint(n.a) \o <<T("right)")>>
RECURSIVE NoId(_)
NoId(n) == CASE n.k = "u" -> IF n.o = "id" THEN NoId(n.a) ELSE [n EXCEPT !.a = NoId(n.a)]
             [] n.k = "b" -> [n EXCEPT !.a = NoId(n.a), !.b = NoId(n.b)] [] OTHER -> n
LatexLaw == Law = "latex" => Same(Whole(LPrint(t), <<>>), NoId(t)) /\ Reads(LPrint(t), <<>>, t)

(* ---- quadrature ---- *)
RECURSIVE DegIn(_, _), CoefVal(_, _, _)
DegIn(n, i) == CASE n.k = "v" -> IF n.i = i THEN 1 ELSE 0
                 [] n.k = "b" -> LET a == DegIn(n.a, i) b == DegIn(n.b, i) IN IF n.o = "*" THEN a + b ELSE IF a > b THEN a ELSE b
                 [] OTHER -> 0
CoefVal(n, i, w) == AtVal(n, i, w)
(* of the integrand c + m x the integral over [a,b] is (b-a) c + m (b^2-a^2)/2 *)
QuadLaw == Law = "quad" =>
  \A i \in {0, 1}, ab \in {<<0, 1>>, <<-1, 1>>, <<3, -2>>, <<2, 2>>} :
    DegIn(t, i) <= 1 =>
      LET a == (ab[1] + P) % P
          b == (ab[2] + P) % P
          c == AtVal(t, i, 0)
          m == FSub(AtVal(t, i, 1), c)
      IN Rule(K(ab[1]), K(ab[2]), i, t) = FAdd(FMul(FSub(b, a), c), FMul(m, FMul(Half, FSub(FMul(b, b), FMul(a, a)))))

(* ---- coordinate systems ---- *)
RECURSIVE Left(_)
Left(n) == CASE n.k = "u" -> (n.o \in {"grad", "div"} /\ UV(n.a)) \/ Left(n.a)
             [] n.k = "b" -> Left(n.a) \/ Left(n.b)
             [] n.k = "w" -> \E j \in 1..Len(n.e) : Left(n.e[j]) [] OTHER -> FALSE
CoordLaw == Law = "coord" =>
  \A dim \in 1..3 :
     /\ ~Left(Coord(t, dim)) /\ Same(Coord(Coord(t, dim), dim), Coord(t, dim))
     /\ ~Left(t) => Same(Coord(t, dim), t)

(* ---- vectors: t is made of vectors and scalars in a meaningful way ---- *)
Len3(n) == Len(VVal(n, Es[1]))
SameV(m, n) == \A j \in 1..2 : VVal(m, Es[j]) = VVal(n, Es[j]) \/ \E q \in 1..Len(VVal(m, Es[j])) : VVal(m, Es[j])[q] < 0
VecLaw == Law = "vec" =>
  /\ Len3(t) \in {0, 1, 2}
  /\ Len3(t) = 2 => /\ SameV(Bin("*", t, W2), Bin("*", W2, t))
                    /\ SameV(Bin("*", Bin("+", t, W1), W2), Bin("+", Bin("*", t, W2), Bin("*", W1, W2)))
                    /\ SameV(Bin("*", Bin("*", X, t), W2), Bin("*", X, Bin("*", t, W2)))
                    /\ SameV(Bin("*", X, t), Bin("*", t, X)) /\ SameV(Bin("-", Bin("+", t, W1), W1), t)
                    /\ \A j \in 1..2 : VVal(Bin("+", t, W1), Es[j]) = Lift2("+", VVal(t, Es[j]), VVal(W1, Es[j]))
  /\ Len3(t) = 1 /\ ~HasVec(t) => \A j \in 1..2 : VVal(t, Es[j]) = <<Val(t, Es[j])>>

(* ---- symbolic domains ---- *)
Dom(i) == [id |-> i, lo |-> K(0), hi |-> Bin("+", K(2), Y), v |-> 1]
RECURSIVE HasDom(_, _)
HasDom(n, i) == CASE n.k = "u" -> (n.o = "sint" /\ n.p[1] = i) \/ HasDom(n.a, i)
                  [] n.k = "b" -> HasDom(n.a, i) \/ HasDom(n.b, i) [] OTHER -> FALSE
SubIntLaw == Law = "subint" =>
  /\ ~HasDom(SubInt(t, Dom(3)), 3)
  /\ (~HasDom(t, 3) => Same(SubInt(t, Dom(3)), t)) /\ Same(SubInt(t, Dom(4)), t)
  /\ Size(SubInt(t, Dom(3))) = Size(t) /\ Same(SubInt(SubInt(t, Dom(3)), Dom(3)), SubInt(t, Dom(3)))

(* ---- printing ---- *)
(* Fully parenthesized text can be read back, so it tells trees apart; the   *)
(* texts of the operands occur in it in order.                               *)
RECURSIVE Show(_), ReadShown(_, _)
Show(n) == CASE n.k = "c" -> <<"c", n.v>>
             [] n.k = "v" -> <<"v", n.i>>
             [] n.k = "f" -> <<"f", n.i, n.g>>
             [] n.k = "u" -> <<"u", n.o, n.p>> \o (IF n.x = <<>> THEN <<>> ELSE <<"[">> \o Show(n.x[1]) \o Show(n.x[2]) \o <<"]">>) \o <<"(">> \o Show(n.a) \o <<")">>
             [] OTHER -> <<"(">> \o Show(n.a) \o <<n.o>> \o Show(n.b) \o <<")">>
\* <<tree, next position>>
ReadShown(s, j) ==
  CASE s[j] = "c" -> <<KF(s[j + 1]), j + 2>>
    [] s[j] = "v" -> <<Var(s[j + 1]), j + 2>>
    [] s[j] = "f" -> <<Fs(s[j + 1], s[j + 2]), j + 3>>
    [] s[j] = "u" -> (IF s[j + 3] = "["
                      THEN LET p == ReadShown(s, j + 4) q == ReadShown(s, p[2]) r == ReadShown(s, q[2] + 2)
                           IN <<UnP(s[j + 1], s[j + 2], <<p[1], q[1]>>, r[1]), r[2] + 1>>
                      ELSE LET r == ReadShown(s, j + 4) IN <<UnP(s[j + 1], s[j + 2], <<>>, r[1]), r[2] + 1>>)
    [] OTHER -> LET p == ReadShown(s, j + 1) q == ReadShown(s, p[2] + 1) IN <<Bin(s[p[2]], p[1], q[1]), q[2] + 1>>
Words(n) == [j \in 1..Len(Show(n)) |-> ToString(Show(n)[j])]
PrintLaw == Law = "print" =>
  /\ Same(ReadShown(Show(t), 1)[1], t) /\ ReadShown(Show(t), 1)[2] = Len(Show(t)) + 1
  /\ t.k = "b" => InOrder(<<Words(t.a), Words(t.b)>>, Words(t), 1) /\ (InOrder(<<Words(t.b), Words(t.a)>>, Words(t), 1) => Occurs(t.a, t.b) \/ Occurs(t.b, t.a))
=============================================================================
