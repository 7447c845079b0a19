------------------------------- MODULE GenCt --------------------------------
(***************************************************************************)
(* Calls of the compile-time part of the library: expressions over integer *)
(* constants, variables (and function symbols) under + - * /.  An operand   *)
(* is only used where the formula has a value (division by a formula that   *)
(* is zero everywhere is a compile-time error by design).                   *)
(***************************************************************************)
EXTENDS Gen, Sem

CI(i) == [k |-> "c", t |-> "l", h |-> Num(i), v |-> IF i < 0 THEN P - (-i % P) ELSE i % P, f |-> "", c |-> 0, z |-> i]
Ints  == {0, 1, 2, 3, -1, -2, 4, 5, 6, -3}
Half  == Bin("/", CI(1), CI(2))
PoolC == << CI(0), CI(1), CI(2), CI(-1), CI(6), X, Y, Half, Bin("/", CI(3), CI(4)), Bin("/", CI(4), CI(2)), Bin("/", CI(-2), CI(6)),
            Bin("-", CI(0), X), Bin("/", CI(1), X), Bin("+", X, CI(1)), Bin("*", X, Y), Bin("-", CI(2), Y), Bin("*", CI(2), X),
            Bin("/", X, CI(2)), Bin("+", X, X), Bin("-", CI(0), CI(3)), Bin("-", X, Bin("/", CI(1), CI(3))) >>

(* profile: op operations, fs function symbols, nv variables *)
CAll  == [op |-> Arith, fs |-> FALSE, nv |-> 3, cs |-> Ints]
CPoly == [op |-> {"+", "-", "*"}, fs |-> FALSE, nv |-> 3, cs |-> Ints]
CFs   == [op |-> Arith, fs |-> TRUE, nv |-> 2, cs |-> Ints]
CPFs  == [op |-> {"+", "-", "*"}, fs |-> TRUE, nv |-> 2, cs |-> {1, 2, 3, -1}]
RECURSIVE CTree(_, _, _)
CLeaf(pf, r) == IF r <= 12 THEN CI(0) ELSE IF r <= 24 THEN CI(1)
                ELSE IF r <= 45 THEN CI(RandomElement(pf.cs))
                ELSE IF pf.fs /\ r <= 65 THEN Fs(RandomElement(0..1), RandomElement({0, 1}))
                ELSE Var(RandomElement(0..(pf.nv - 1)))
CTree(d, pf, r) ==
  IF d <= 0 \/ r <= 12 THEN CLeaf(pf, RandomElement(1..100))
  ELSE IF r <= 20 THEN Bin("/", CI(RandomElement(pf.cs)), CI(RandomElement({2, 3, 4, -2, 6})))
  ELSE IF r <= 26 /\ "/" \in pf.op THEN Bin("/", CI(1), CTree(d - 1, pf, RandomElement(1..100)))
  ELSE IF r <= 32 THEN Bin("-", CI(0), CTree(d - 1, pf, RandomElement(1..100)))
  ELSE IF r <= 40 /\ "/" \notin pf.op THEN Bin("/", CTree(d - 1, pf, RandomElement(1..100)), CI(RandomElement({2, 3, -1, 4})))
  ELSE Bin(RandomElement(pf.op), CTree(d - 1, pf, RandomElement(1..100)), CTree(d - 1, pf, RandomElement(1..100)))

At(p) == [x |-> [i \in 1..NVars |-> IF i <= 3 THEN p[i] % P ELSE 0], s |-> 5]
Defined(t) == \A j \in 1..3 : Val(t, Es[j]) >= 0
DefinedAt(t, p) == Val(t, At([i \in 1..3 |-> (p[i] + P) % P])) >= 0

(* a tree with a value; after a few attempts a plain one *)
RECURSIVE Try(_, _, _)
Try(d, pf, tries) ==
  CHOOSE z \in { IF Defined(t) THEN t ELSE IF tries = 0 THEN Bin("+", X, CI(2)) ELSE Try(d, pf, tries - 1)
                 : t \in {CTree(d, pf, RandomElement(41..100))} } : TRUE
CAny(d, pf) == Try(d, pf, 6)
CTop(d, pf) == CHOOSE z \in { CAny(q, pf) : q \in {RandomElement(1..d)} } : TRUE
RECURSIVE TryAt(_, _, _, _)
TryAt(d, pf, p, tries) ==
  CHOOSE z \in { IF Defined(t) /\ DefinedAt(t, p) THEN t ELSE IF tries = 0 THEN Bin("*", Y, Bin("+", X, CI(2))) ELSE TryAt(d, pf, p, tries - 1)
                 : t \in {CTree(d, pf, RandomElement(41..100))} } : TRUE
(* types to print, in pairs *)
RECURSIVE CtParts(_)
CtPart(q0) == CASE RandomElement(1..3) = 1 -> RandomElement(Rng(PoolC)) [] OTHER -> CTree(RandomElement(0..2), CFs, RandomElement(1..100))
CtParts(k) == IF k = 0 THEN <<>> ELSE <<CtPart(0)>> \o CtParts(k - 1)
RECURSIVE CtMut(_, _)
CtMut(m, r) == IF m.k # "b" \/ r <= 40
               THEN (CASE m.k = "b" -> IF r % 2 = 0 THEN Swap(m) ELSE [m EXCEPT !.o = RandomElement(Arith)]
                       [] m.k = "v" -> Var(RandomElement(0..3)) [] m.k = "f" -> Fs(RandomElement(0..2), RandomElement({0, 1}))
                       [] OTHER -> CI(RandomElement({0, 1, -1, 7, 70000, 2})))
               ELSE IF r % 2 = 0 THEN [m EXCEPT !.a = CtMut(@, RandomElement(1..100))] ELSE [m EXCEPT !.b = CtMut(@, RandomElement(1..100))]
CtPartners(q) == CHOOSE z \in { CASE r = 1 -> q
                                  [] r = 2 -> CtParts(Len(q))
                                  [] r = 3 /\ Len(q) > 1 -> [q EXCEPT ![j] = q[1], ![1] = q[j]]
                                  [] OTHER -> [q EXCEPT ![j] = CtMut(@, RandomElement(1..100))] : r \in {RandomElement(1..6)}, j \in {RandomElement(1..Len(q))} } : TRUE
CtPrintList(k, q) == "ctprint " \o k \o " " \o Num(Len(q)) \o Texts(q) \o (CHOOSE z \in {" " \o Num(Len(w)) \o Texts(w) : w \in {CtPartners(q)}} : TRUE)
PrintCt(r) == CASE r <= 2 -> CHOOSE z \in {CtPrintList("e", q) : q \in {CtParts(1)}} : TRUE
                [] r <= 4 -> CHOOSE z \in {CtPrintList("q", q) : q \in {CtParts(2)}} : TRUE
                [] r <= 5 -> CHOOSE z \in {CtPrintList("i", q) : q \in {CtParts(2)}} : TRUE
                [] OTHER -> CHOOSE z \in {CtPrintList("w", q) : q \in {CtParts(RandomElement(1..3))}} : TRUE
P3(p) == Num(p[1]) \o " " \o Num(p[2]) \o " " \o Num(p[3])

(* a polynomial that is at most linear in the symbol or variable q *)
RECURSIVE Linear(_, _)
Free(q, d) == CHOOSE z \in { Subst(t, <<q>>, <<CI(3)>>) : t \in {CTree(d, CPFs, RandomElement(1..100))} } : TRUE
Linear(q, d) ==
  IF d = 0 THEN (IF RandomElement(1..3) = 1 THEN Free(q, 1) ELSE q)
  ELSE CASE RandomElement(1..5) <= 2 -> Bin(RandomElement({"+", "-"}), Linear(q, d - 1), Linear(q, d - 1))
         [] RandomElement(1..3) = 1 -> Bin("*", Free(q, 1), Linear(q, d - 1))
         [] RandomElement(1..2) = 1 -> Bin("*", Linear(q, d - 1), Free(q, 1))
         [] OTHER -> Bin("/", Linear(q, d - 1), CI(RandomElement({2, 3, -1, 4})))
(* terms with several powers of q, in every grouping *)
RECURSIVE Powers(_, _)
Powers(q, d) ==
  IF d = 0 THEN (IF RandomElement(1..3) = 1 THEN Free(q, 0) ELSE q)
  ELSE CASE RandomElement(1..3) <= 2 -> Bin("*", Powers(q, d - 1), Powers(q, IF RandomElement(1..2) = 1 THEN 0 ELSE d - 1))
         [] RandomElement(1..2) = 1 -> Bin("*", Powers(q, 0), Powers(q, d - 1))
         [] RandomElement(1..2) = 1 -> Bin(RandomElement({"+", "-"}), Powers(q, d - 1), Powers(q, d - 1))
         [] OTHER -> Bin("/", Powers(q, d - 1), CI(RandomElement({2, 3, -1, 4})))
RECURSIVE Bound0(_, _)
Bound0(i, r) == IF r <= 60 THEN CI(RandomElement({0, 1, 2, -1, 3})) 
                ELSE IF r <= 80 THEN Var((i + RandomElement({1, 2})) % 3)
                ELSE IF r <= 88 THEN Bin("/", CI(RandomElement({1, 3, -1})), CI(2))
                ELSE Bin(RandomElement({"+", "-", "*"}), Var((i + 1) % 3), CI(RandomElement({1, 2, -1})))
(* integrands of a high degree: a product of up to 7 factors, associated at random *)
RECURSIVE Power(_, _)
Factor(v, r) == CASE r <= 6 -> Var(v) [] r = 7 -> Var((v + 1) % 3) [] r = 8 -> Bin("+", Var(v), CI(1)) [] OTHER -> CI(RandomElement({2, -1, 3}))
Power(v, k) == IF k <= 1 THEN CHOOSE z \in {Factor(v, r) : r \in {RandomElement(1..9)}} : TRUE
               ELSE CHOOSE z \in {Bin("*", Power(v, q), Power(v, k - q)) : q \in {RandomElement(1..(k - 1))}} : TRUE
(* constants beyond the range of smaller integer types (no arithmetic between them) *)
BigC == <<"2147483648", "-2147483649", "5000000000", "4294967296", "-1099511627776", "65536", "-32769", "16777217">>
CB(j) == [k |-> "c", t |-> "l", h |-> BigC[j], v |-> 0, f |-> "", c |-> 0, z |-> 0]
BigTree(i, b) == LET o == OpSeq[1 + (i % 4)]
                     q == OpSeq[1 + ((i \div 4) % 4)]
                 IN CASE (i \div 16) % 6 = 0 -> Bin(o, b, X)
                      [] (i \div 16) % 6 = 1 -> Bin(o, X, b)
                      [] (i \div 16) % 6 = 2 -> Bin(o, b, Bin(q, X, Y))
                      [] (i \div 16) % 6 = 3 -> Bin(o, Bin(q, X, Y), b)
                      [] (i \div 16) % 6 = 4 -> Bin(o, Bin(q, b, X), Y)
                      [] OTHER -> Bin(o, Y, Bin(q, X, b))
NC == Len(PoolC)
PairOk(q) == LET t == Bin(OpSeq[1 + (q % 4)], Fst(PoolC, q \div 4), Snd(PoolC, q \div 4)) IN IF Defined(t) THEN t ELSE Bin("+", Fst(PoolC, q \div 4), Snd(PoolC, q \div 4))
(* a polynomial pair: no division by a formula *)
PolyOk(q) == LET a == Fst(PoolC, q \div 4) b == Snd(PoolC, q \div 4) o == OpSeq[1 + (q % 3)]
                 Cl(t) == Subst(t, <<Bin("/", CI(1), X)>>, <<Bin("*", X, X)>>)
             IN Bin(o, Cl(a), Cl(b))
(* long chains of operations; variables and symbols with large numbers *)
RECURSIVE CChain(_, _, _)
CTerm(pf, ops) == CHOOSE z \in { IF r <= 6 THEN CLeaf(pf, RandomElement(25..100)) ELSE Bin(RandomElement(ops), CLeaf(pf, RandomElement(1..100)), CLeaf(pf, RandomElement(46..100))) : r \in {RandomElement(1..10)} } : TRUE
CChain(k, pf, sh) ==
  IF k = 0 THEN CTerm(pf, {"+", "-", "*"})
  ELSE CASE sh = "sumL"  -> Bin(RandomElement({"+", "-"}), CChain(k - 1, pf, sh), CTerm(pf, {"*"}))
         [] sh = "sumR"  -> Bin(RandomElement({"+", "-"}), CTerm(pf, {"*"}), CChain(k - 1, pf, sh))
         [] sh = "prodL" -> Bin("*", CChain(k - 1, pf, sh), CLeaf(pf, RandomElement(25..100)))
         [] sh = "prodR" -> Bin("*", CLeaf(pf, RandomElement(25..100)), CChain(k - 1, pf, sh))
         [] OTHER -> Bin(IF k % 2 = 0 THEN RandomElement({"+", "-"}) ELSE "*", CChain(k - 1, pf, sh), CLeaf(pf, RandomElement(25..100)))
RECURSIVE CLong(_, _, _, _)
CLong(lo, hi, pf, tries) ==
  CHOOSE z \in { IF Defined(t) THEN t ELSE IF tries = 0 THEN Bin("*", X, Bin("+", Y, CI(2))) ELSE CLong(lo, hi, pf, tries - 1)
                 : t \in {CChain(RandomElement(lo..hi), pf, RandomElement({"sumL", "sumR", "prodL", "prodR", "mix"}))} } : TRUE
Move(o) == RandomElement({0, 0, 5, 9, 40, 300, 70000})
RECURSIVE LinChain(_, _)
LinChain(q, k) == IF k = 0 THEN q
                  ELSE CASE RandomElement(1..4) = 1 -> Bin("*", Free(q, 0), LinChain(q, k - 1))
                         [] RandomElement(1..3) = 1 -> Bin("*", LinChain(q, k - 1), Free(q, 0))
                         [] RandomElement(1..2) = 1 -> Bin(RandomElement({"+", "-"}), LinChain(q, k - 1), Bin("*", Free(q, 0), Free(q, 0)))
                         [] OTHER -> Bin(RandomElement({"+", "-"}), Bin("*", Free(q, 0), q), LinChain(q, k - 1))
Lin == {Var(0), Var(1), Fs(0, 0), Fs(0, 1), Fs(1, 0)}
(* products of all pairs of sums, also of equal ones, alone and inside a formula *)
PoolSums == << Bin("+", X, Y), Bin("-", X, Y), Bin("-", CI(2), X), Bin("+", X, CI(1)), Bin("+", Bin("*", X, Y), CI(1)), Bin("/", Bin("-", X, Y), CI(2)),
            Bin("*", X, Bin("+", X, CI(1))), Y, CI(3), Bin("-", Bin("+", X, Y), CI(1)), Bin("-", X, Bin("-", Y, CI(1))) >>
Within(t, s) == CASE s = 0 -> t [] s = 1 -> Bin("*", t, X) [] s = 2 -> Bin("*", Y, t) [] s = 3 -> Bin("+", t, X) [] s = 4 -> Bin("/", t, CI(3))
                  [] s = 5 -> Bin("-", Y, t) [] OTHER -> Bin("-", t, CI(1))
ExpPair(i) == Within(Bin("*", Fst(PoolSums, i \div 7), Snd(PoolSums, i \div 7)), i % 7)
(* formulas that mention a part twice *)
PoolTwo == << X, Y, Fs(0, 0), Bin("+", X, CI(1)), Bin("-", X, Y), Bin("*", CI(2), X), CI(2), Bin("*", Fs(0, 0), Y) >>
Twice(a, b, s) == CASE s = 0 -> Bin("+", a, a) [] s = 1 -> Bin("*", a, a) [] s = 2 -> Bin("-", Bin("+", a, b), a) [] s = 3 -> Bin("-", Bin("+", a, b), b)
                    [] s = 4 -> Bin("-", a, Bin("+", a, b)) [] s = 5 -> Bin("*", a, Bin("*", a, b)) [] s = 6 -> Bin("*", Bin("+", a, b), Bin("+", a, b))
                    [] s = 7 -> Bin("+", Bin("-", a, b), Bin("-", b, a)) [] s = 8 -> Bin("-", Bin("*", a, b), Bin("*", b, a))
                    [] s = 9 -> Bin("+", Bin("*", a, b), Bin("*", a, b)) [] s = 10 -> Bin("*", Bin("-", a, b), Bin("-", a, b))
                    [] s = 11 -> Bin("/", Bin("*", a, b), a) [] s = 12 -> Bin("*", Bin("/", a, b), b) [] s = 13 -> Bin("/", a, Bin("*", a, b))
                    [] s = 14 -> Bin("/", Bin("+", a, b), Bin("*", a, b)) [] OTHER -> Bin("*", b, Bin("/", a, b))
TwiceN(i, k) == CHOOSE z \in { IF Defined(t) THEN t ELSE Bin("+", t.a, t.b) : t \in {Twice(Fst(PoolTwo, (i \div k) % Sq(PoolTwo)), Snd(PoolTwo, (i \div k) % Sq(PoolTwo)), i % k)} } : TRUE
NoF(t) == Subst(t, <<Fs(0, 0)>>, <<Bin("-", CI(3), Y)>>)
(* variables with large numbers in every place of an operation *)
FarIds == <<3, 10, 127, 128, 255, 256, 300, 32768, 65535, 65536, 65537, 70000>>
FarPlace(i) == LET v == Var(FarIds[1 + (i % Len(FarIds))])
                   o == OpSeq[1 + (((i \div Len(FarIds)) + i) % 4)]
               IN CASE (i \div Len(FarIds)) % 9 = 0 -> v [] (i \div Len(FarIds)) % 9 = 1 -> Bin(o, v, X) [] (i \div Len(FarIds)) % 9 = 2 -> Bin(o, X, v)
                    [] (i \div Len(FarIds)) % 9 = 3 -> Bin(o, v, CI(3)) [] (i \div Len(FarIds)) % 9 = 4 -> Bin(o, CI(3), v)
                    [] (i \div Len(FarIds)) % 9 = 5 -> Bin(o, v, Bin("+", X, CI(2))) [] (i \div Len(FarIds)) % 9 = 6 -> Bin(o, Bin("+", X, CI(2)), v)
                    [] (i \div Len(FarIds)) % 9 = 7 -> Bin(o, Bin("*", X, v), Bin("+", v, CI(2))) [] OTHER -> Bin(o, v, Bin("-", v, Y))
CtCall(kind, i) ==
  CASE kind = "ctsimp" ->
         IF i < 4 * Sq(PoolC) THEN "ctsimp " \o Text(PairOk(i))
         ELSE IF Pick(1..8) = 1 THEN "ctsimp " \o Text(CAny(2, [CAll EXCEPT !.cs = {60000, -70000, 45000, 65537, 1, 3}, !.nv = 1]))
         ELSE "ctsimp " \o Text(CTop(Depth, CAll))
    [] kind = "ctexp" -> "ctexp " \o Text(CTop(Depth, Pick({CAll, CPoly, CPoly})))
    [] kind = "ctsub" ->
         CHOOSE z \in { "ctsub " \o Text(IF Pick(1..6) = 1 THEN CAny(1, CFs) ELSE SubTree(t, 40)) \o " " \o Text(CTop(2, CFs)) \o " " \o Text(t) : t \in {CTop(Depth, CFs)} } : TRUE
    [] kind = "ctdiff" ->
         IF i < 4 * Sq(PoolC) THEN "ctdiff 0 " \o Text(PairOk(i))
         ELSE "ctdiff " \o Num(Pick(0..2)) \o " " \o Text(CTop(Depth, CAll))
    [] kind = "ctint" ->
         CHOOSE z \in { "ctint " \o Text(Bound0(v, Pick(1..100))) \o " " \o Text(Bound0(v, Pick(1..100))) \o " " \o Num(v) \o " " \o Text(t)
                        : v \in {Pick(0..2)}, t \in {IF i < 3 * Sq(PoolC) THEN PolyOk(i) ELSE CTop(Pick({2, 2, 3}), CPoly)} } : TRUE
    [] kind = "ctpow" ->
         CHOOSE z \in { "ctint " \o Text(Bound0(v, Pick(1..100))) \o " " \o Text(Bound0(v, Pick(1..100))) \o " " \o Num(v) \o " " \o Text(Power(v, Pick({2, 3, 4, 5, 6, 7, 8, 9, 11, 13})))
                        : v \in {Pick(0..2)} } : TRUE
    [] kind = "ctbig" -> "ctrt 2 3 5 " \o Text(IF i < Len(BigC) THEN CB(i + 1) ELSE BigTree(i, CB(1 + (Pick(1..Len(BigC)) % Len(BigC)))))
    [] kind = "ctbigbuild" -> "ctbuild 2 3 5 " \o Text(BigTree(i, CB(1 + (Pick(1..Len(BigC)) % Len(BigC)))))
    [] kind = "ctprint" -> PrintCt(Pick(1..8))
    [] kind = "ctleaf" -> "ctbuild " \o P3(<<Pick(Ints), Pick(Ints), Pick(Ints)>>) \o " " \o Text(<<X, Y, Var(2), CI(3), CI(0), CI(-7), CB(1), CB(3)>>[1 + (i % 8)])
    [] kind = "ctcoef" ->
         CHOOSE z \in { "ctcoef " \o Text(q) \o " " \o Text(Linear(q, Pick(1..3))) : q \in {Pick({Var(0), Var(1), Fs(0, 0), Fs(0, 1), Fs(1, 0)})} } : TRUE
    [] kind = "ctpcoef" ->
         CHOOSE z \in { "ctcoef " \o Text(q) \o " " \o Text(IF i % 3 = 0 THEN CTop(Pick({2, 3}), CPFs) ELSE Powers(q, Pick({2, 2, 3}))) : q \in {Pick({Var(0), Var(1), Fs(0, 0), Fs(0, 1), Fs(1, 0)})} } : TRUE
    [] kind = "ctdrop" ->
         CHOOSE z \in { "ctdrop " \o Text(q) \o " " \o Text(CTop(Pick({2, 3}), CPFs)) : q \in {Pick({Var(0), Var(1), Fs(0, 0), Fs(0, 1), Fs(1, 0)})} } : TRUE
    [] kind = "ctevx" -> "ctevx " \o Text(IF i < 5 THEN <<X, Y, Var(2), CI(3), Var(3)>>[i + 1] ELSE CTop(Pick(1..3), CAll))
    [] kind = "ctbuild" ->
         CHOOSE z \in { "ctbuild " \o P3(p) \o " " \o Text(TryAt(Depth, CAll, p, 6)) : p \in {<<Pick(Ints), Pick(Ints), Pick(Ints)>>} } : TRUE
    [] kind = "ctbuild2" ->
         CHOOSE z \in { "ctbuild " \o P3(p) \o " " \o Text(IF Defined(PairOk(i)) /\ DefinedAt(PairOk(i), p) THEN PairOk(i) ELSE X) : p \in {<<Pick({2, 3, -2}), Pick({3, 5, 7}), 1>>} } : TRUE
    [] kind = "ctrt" ->
         CHOOSE z \in { "ctrt " \o P3(p) \o " " \o Text(TryAt(Depth, CAll, p, 6)) : p \in {<<Pick(Ints), Pick(Ints), Pick(Ints)>>} } : TRUE
    [] kind = "ctrt2" ->
         CHOOSE z \in { "ctrt " \o P3(p) \o " " \o Text(IF Defined(PairOk(i)) /\ DefinedAt(PairOk(i), p) THEN PairOk(i) ELSE X) : p \in {<<Pick({2, 3, -2}), Pick({3, 5, 7}), 1>>} } : TRUE
    [] kind = "ctexp2" -> "ctexp " \o Text(IF i < 7 * Sq(PoolSums) THEN ExpPair(i) ELSE NoF(TwiceN(i, 11)))
    [] kind = "ctsimp2" -> "ctsimp " \o Text(NoF(TwiceN(i, 16)))
    [] kind = "ctdiff2" -> "ctdiff " \o Num(Pick(0..1)) \o " " \o Text(NoF(TwiceN(i, 16)))
    [] kind = "ctsub2" -> CHOOSE z \in { "ctsub " \o Text(IF Pick(1..3) = 1 THEN Fst(PoolTwo, (i \div 16) % Sq(PoolTwo)) ELSE SubTree(t, 40)) \o " " \o Text(IF Pick(1..2) = 1 THEN Snd(PoolTwo, Pick(0..63)) ELSE CTop(1, CFs)) \o " " \o Text(t) : t \in {TwiceN(i, 16)} } : TRUE
    [] kind = "ctint2" -> CHOOSE z \in { "ctint " \o Text(Bound0(v, Pick(1..100))) \o " " \o Text(Bound0(v, Pick(1..100))) \o " " \o Num(v) \o " " \o Text(IF i < 7 * Sq(PoolSums) THEN ExpPair(i) ELSE NoF(TwiceN(i, 11))) : v \in {Pick(0..1)} } : TRUE
    [] kind = "ctpcoef2" -> "ctcoef " \o Text(Pick({X, Y, Fs(0, 0)})) \o " " \o Text(TwiceN(i, 11))
    [] kind = "ctdrop2" -> "ctdrop " \o Text(Pick({X, Y, Fs(0, 0)})) \o " " \o Text(TwiceN(i, 11))
    [] kind = "ctrt3" -> CHOOSE z \in { "ctrt " \o P3(p) \o " " \o Text(IF DefinedAt(t, p) THEN t ELSE X) : p \in {<<Pick({2, 3, -2}), Pick({3, 5, 7}), 1>>}, t \in {NoF(TwiceN(i, 16))} } : TRUE
    [] kind = "ctrtid" -> "ctrt 2 3 5 " \o Text(FarPlace(i))
    [] kind = "ctbuild3" -> CHOOSE z \in { "ctbuild " \o P3(p) \o " " \o Text(IF DefinedAt(t, p) THEN t ELSE X) : p \in {<<Pick({2, 3, -2}), Pick({3, 5, 7}), 1>>}, t \in {NoF(TwiceN(i, 16))} } : TRUE
    [] kind = "ctxsimp" -> "ctsimp " \o Text(Far(CLong(4, 10, CAll, 4), Move(0)))
    [] kind = "ctxexp" -> "ctexp " \o Text(Far(CLong(3, 7, Pick({CAll, CPoly}), 4), Move(0)))
    [] kind = "ctxsub" -> CHOOSE z \in { "ctsub " \o Text(SubTree(t, 15)) \o " " \o Text(CTop(2, CFs)) \o " " \o Text(t) : t \in {Far(CLong(3, 10, CFs, 4), Move(0))} } : TRUE
    [] kind = "ctxdiff" -> CHOOSE z \in { "ctdiff " \o Num(o + Pick(0..2)) \o " " \o Text(Far(CLong(3, 8, CAll, 4), o)) : o \in {Move(0)} } : TRUE
    [] kind = "ctxint" -> CHOOSE z \in { "ctint " \o Text(Bound0(v, Pick(1..100))) \o " " \o Text(Bound0(v, Pick(1..100))) \o " " \o Num(v + o) \o " " \o Text(Far(CLong(2, 6, CPoly, 4), o))
                        : v \in {Pick(0..2)}, o \in {Move(0)} } : TRUE
    [] kind = "ctxcoef" -> CHOOSE z \in { "ctcoef " \o Text(Far(q, o)) \o " " \o Text(Far(LinChain(q, Pick(3..7)), o)) : q \in {Pick(Lin)}, o \in {Move(0)} } : TRUE
    [] kind = "ctxpcoef" -> CHOOSE z \in { "ctcoef " \o Text(Far(q, o)) \o " " \o Text(Far(CLong(3, 7, CPFs, 4), o)) : q \in {Pick(Lin)}, o \in {Move(0)} } : TRUE
    [] kind = "ctxdrop" -> CHOOSE z \in { "ctdrop " \o Text(Far(q, o)) \o " " \o Text(Far(CLong(3, 8, CPFs, 4), o)) : q \in {Pick(Lin)}, o \in {Move(0)} } : TRUE
    [] kind = "ctxbuild" -> CHOOSE z \in { "ctbuild " \o P3(p) \o " " \o Text(IF DefinedAt(t, p) THEN t ELSE X) : p \in {<<Pick(Ints), Pick(Ints), Pick(Ints)>>}, t \in {CLong(4, 12, CPoly, 4)} } : TRUE
    [] kind = "ctxrt" -> CHOOSE z \in { "ctrt " \o P3(p) \o " " \o Text(IF DefinedAt(t, p) THEN t ELSE X) : p \in {<<Pick(Ints), Pick(Ints), Pick(Ints)>>}, t \in {CLong(4, 12, CPoly, 4)} } : TRUE
    [] OTHER -> "?"
NextCt == /\ n < Skip + Count
          /\ n' = n + 1
          /\ \E s \in {CtCall(Kind, n)} : PrintT("GEN " \o s)
=============================================================================
