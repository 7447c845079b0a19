------------------------------- MODULE GenOps -------------------------------
(***************************************************************************)
(* Formulas written in client code: a op b and f(a) for every kind of      *)
(* operand the library offers.                                             *)
(*   d i l   numbers (double, int, long)      cd cl   run time constants    *)
(*   v       run time variable                f       function symbol      *)
(*   u b e   unary, binary, wrapped expression                              *)
(*   C V B   compile-time constant, variable, expression                    *)
(*   hd hl   compile-time expression that holds a run time constant         *)
(***************************************************************************)
EXTENDS GenCt

Kinds   == <<"d", "i", "l", "cd", "cl", "v", "f", "u", "b", "e", "C", "V", "B", "e2", "hd", "hl">>
Native  == {"d", "i", "l", "s"}
RtOps   == [Symb EXCEPT !.nv = 2, !.ns = 2, !.sy = {"grad", "pd"}]
CtSmall == << Bin("+", X, CI(1)), Bin("*", X, Y), Bin("-", X, Y), Bin("/", CI(1), CI(2)), Bin("/", CI(3), X), Bin("*", CI(2), X),
              Bin("-", CI(0), Y), Bin("/", X, Y), Bin("+", X, X), Bin("*", Bin("+", X, CI(1)), Bin("-", Y, CI(2))),
              Bin("-", Bin("*", X, X), Bin("/", CI(1), Y)), Bin("+", CI(0), X), Bin("+", CI(2), X), Bin("-", CI(3), Y), Bin("+", CI(-1), Bin("*", X, Y)), Bin("-", CI(1), Bin("+", X, Y)),
              Bin("+", CI(1), CI(2)), Bin("+", X, Y), Bin("+", CI(0), Y), Bin("-", CI(2), X), Bin("+", CI(3), Y), Bin("-", CI(3), CI(1)) >>
BinSmall == << Bin("+", X, Y), Bin("-", X, C("1")), Bin("*", X, Y), Bin("/", X, Y), Bin("*", C("0"), X), Bin("+", C("1"), C("2")),
               Bin("-", Fs(0, 0), X), Bin("*", Un("sin", X), Y), Bin("-", X, X), Bin("/", C("1"), X) >>
UnSmall  == << Un("sin", X), Un("exp", Y), Un("id", Bin("+", X, Y)), Un("sqrt", X), Un("fabs", X), Un("grad", Fs(0, 0)), UnP("pd", <<1>>, <<>>, Fs(0, 1)),
               Un("id", C("0")), Un("cos", Bin("*", X, Y)), UnP("sint", <<0>>, <<>>, X), Un("id", C("1")) >>
Ofs(s) == s[Pick(1..Len(s))]
Nest(b) == IF Pick(1..3) > 1 THEN b ELSE Bin(Pick(Arith), b, Ofs(<<X, Y, CI(2)>>))
OperandOf(k, s) ==
  CASE k = "d" -> C(Pick({"0", "1", "2", "-1", "0.5", "3", "16777217.5", "-16777218.5"}))
    [] k \in {"i", "l"} -> CL(Pick({"0", "1", "2", "-1", "3", "16777217"}))
    [] k = "cd" -> C(Pick({"0", "1", "2", "-1", "0.5", "3", "16777217.5", "-16777218.5"}))
    [] k = "cl" -> CL(Pick({"0", "1", "2", "-1", "3", "16777217"}))
    [] k \in {"v", "V"} -> Var(Pick({0, 0, 1, 2}))
    [] k = "f" -> Fs(Pick({0, 0, 1}), Pick({0, 1}))
    [] k = "u" -> IF s THEN Ofs(UnSmall) ELSE Un(Pick(Funcs), Tree(2, RtOps))
    [] k = "b" -> IF s THEN Ofs(BinSmall) ELSE Bin(Pick(Arith), Tree(1, RtOps), Tree(2, RtOps))
    [] k = "e" -> Ofs(<<C("0"), C("1"), C("2"), X, Y, Fs(0, 0), C("-1"), CL("1"), X>>)
    [] k = "e2" -> IF s THEN Ofs(UnSmall \o BinSmall) ELSE Tree(3, RtOps)
    [] k = "hd" -> Nest(Bin(Pick({"+", "-"}), C(Pick({"2", "0.5", "-1", "0", "16777217.5"})), Ofs(<<X, Y, Bin("*", X, Y), Bin("+", X, CI(1))>>)))
    [] k = "hl" -> Nest(Bin(Pick({"+", "-"}), CL(Pick({"2", "3", "-1", "16777217"})), Ofs(<<X, Y, Bin("*", X, Y), Bin("+", X, CI(1))>>)))
    [] k = "C" -> CI(Pick({0, 1, 2, -1, 3}))
    [] OTHER -> IF s THEN Ofs(CtSmall) ELSE CHOOSE z \in { IF t.k = "b" THEN t ELSE Bin("+", X, CI(1)) : t \in {CAny(2, [CAll EXCEPT !.nv = 2])} } : TRUE
KindText(k) == IF k = "e2" THEN "e" ELSE k
(* the same variable, symbol or expression on both sides now and then *)
Again2(k, ka, a, b) == IF k = ka /\ Pick(1..4) = 1 THEN a ELSE b
RECURSIVE NotZero(_)
NotZero(b) == ~(ConstArith(b) /\ (b.k = "b" \/ b.h = "0"))
OpsText(o, ka, kb, a, b) == "op " \o (IF o = "/" /\ ~NotZero(b) THEN "+" ELSE o) \o " " \o KindText(ka) \o " " \o Text(a) \o " " \o KindText(kb) \o " " \o Text(b)
NK == Len(Kinds)
OpsOf(i, s) ==
  LET o  == OpSeq[1 + (i % 4)]
      ka == Kinds[1 + ((i \div 4) % NK)]
      kb == Kinds[1 + ((i \div (4 * NK)) % NK)]
      k2 == IF ka \in Native /\ kb \in Native THEN Pick({"v", "b", "e"}) ELSE kb
  IN CHOOSE z \in { OpsText(o, ka, k2, a, Again2(k2, ka, a, b)) : a \in {OperandOf(ka, s)}, b \in {OperandOf(k2, s)} } : TRUE
(* the same with run-time operands only, of any size (s cf: single precision) *)
RtKinds == <<"d", "i", "l", "s", "cd", "cl", "ci", "cf", "v", "f", "u", "b", "e", "e2">>
NR == Len(RtKinds)
RtNum(k) == IF k \in {"d", "cd"} THEN C(Pick({"0", "1", "2", "-1", "0.5", "3", "-0.25", "2.5", "100", "0.1", "4294967296", "1e-9"}))
            ELSE IF k \in {"s", "cf"} THEN C(Pick({"0", "1", "2", "-1", "0.5", "-0.25", "4"}))
            ELSE CL(Pick({"0", "1", "2", "-1", "3", "-7", "12", "2000000"}))
RtOperand(k) == CASE k \in {"d", "i", "l", "s", "cd", "cl", "ci", "cf"} -> RtNum(k)
                  [] k = "v" -> Var(Pick(0..4))
                  [] k = "f" -> Fs(Pick(0..3), Pick({0, 1}))
                  [] k = "u" -> IF Pick(1..3) = 1 THEN Ofs(UnSmall) ELSE Un(Pick(Funcs), Tree(2, RtOps))
                  [] k = "b" -> IF Pick(1..3) = 1 THEN Ofs(BinSmall) ELSE Bin(Pick(Arith), Tree(2, RtOps), Tree(2, RtOps))
                  [] k = "e" -> CASE Pick(1..3) = 1 -> RtNum(Pick({"cd", "cl"})) [] Pick(1..2) = 1 -> Var(Pick(0..2)) [] OTHER -> Fs(Pick(0..2), Pick({0, 1}))
                  [] OTHER -> Ofs(<<Ofs(UnSmall), Ofs(BinSmall), Tree(3, RtOps), Tree(3, RtOps)>>)
RopsOf(i) ==
  LET o  == OpSeq[1 + (i % 4)]
      ka == RtKinds[1 + ((i \div 4) % NR)]
      kb == RtKinds[1 + ((i \div (4 * NR)) % NR)]
      k2 == IF ka \in Native /\ kb \in Native THEN Pick({"v", "b", "e", "e2", "cd", "ci"}) ELSE kb
      \* single precision numbers are not divided: the quotient need not be one
      o2 == IF o = "/" /\ {ka, k2} \cap {"s", "cf"} # {} /\ {ka, k2} \subseteq {"i", "l", "s", "ci", "cl", "cf"} THEN "*" ELSE o
  IN CHOOSE z \in { "r" \o OpsText(o2, ka, k2, a, Again2(k2, ka, a, b)) : a \in {RtOperand(ka)}, b \in {RtOperand(k2)} } : TRUE
(* constants that meet: a constant and a compile-time expression that starts *)
(* with a constant                                                           *)
MergeL == <<"d", "i", "cd", "cl", "C", "hd", "hl", "V">>
MergeR == <<"hd", "hl", "B">>
MNum(k) == CASE k \in {"d", "cd", "hd"} -> C(Pick({"2.5", "-0.75", "16777217.5", "-16777215.5"})) [] k = "C" -> CI(Pick({2, 5, -3})) [] k = "V" -> X [] OTHER -> CL(Pick({"2", "-5", "16777217", "-16777219"}))
MInner(k, o) == Bin(o, IF k = "B" THEN CI(Pick({2, 7, -3})) ELSE MNum(k), Ofs(<<X, Y, Bin("*", X, Y), Bin("+", X, CI(1))>>))
MergeOf(i) ==
  LET o  == <<"+", "-", "*", "/">>[1 + (i % 4)]
      p  == <<"+", "-">>[1 + ((i \div 4) % 2)]
      sw == (i \div 8) % 2 = 1
      ka == MergeL[1 + ((i \div 16) % 8)]
      kb == MergeR[1 + ((i \div 128) % 3)]
      b  == MInner(kb, p)
      a  == IF ka \in {"hd", "hl"} THEN MInner(ka, Pick({"+", "-"})) ELSE MNum(ka)
  IN IF sw THEN CHOOSE z \in { OpsText(o, kb, ka, y, x) : x \in {a}, y \in {b} } : TRUE ELSE CHOOSE z \in { OpsText(o, ka, kb, x, y) : x \in {a}, y \in {b} } : TRUE
(* the same with constants of type int (ci, hi) and float (cf, hf; s: a number) *)
MergeL2 == <<"d", "i", "l", "cd", "cl", "C", "hd", "hl", "B", "ci", "cf", "s", "hi", "hf">>
MergeR2 == <<"hd", "hl", "B", "hi", "hf">>
Single  == {"s", "cf", "hf"}
MNum2(k, sg) == CASE k \in Single -> C(Pick({"2.5", "-0.75", "0.5"}))
                  [] k \in {"d", "cd", "hd"} -> C(Pick(IF sg THEN {"16777217.5", "-16777218.25"} ELSE {"2.5", "-0.75", "16777217.5", "-16777215.5"}))
                  [] k \in {"C", "B"} -> CI(Pick({2, 5, -3}))
                  [] OTHER -> CL(Pick(IF sg THEN {"2", "-5", "7"} ELSE {"2", "-5", "16777217", "-16777219"}))
MInner2(k, o, sg) == Bin(o, MNum2(k, sg), Ofs(<<X, Y, Bin("*", X, Y), Bin("+", X, CI(1))>>))
Merge2Of(i) ==
  LET o  == OpSeq[1 + (i % 4)]
      p  == Pick({"+", "-"})
      k0 == MergeR2[1 + ((i \div 4) % 5)]
      sw == (i \div 20) % 2 = 1
      ka == MergeL2[1 + ((i \div 40) % 14)]
      kb == IF {ka, k0} \cap (Single \cup {"ci", "hi"}) = {} THEN Pick({"hi", "hf"}) ELSE k0
      sg == {ka, kb} \cap Single # {}
      b  == MInner2(kb, p, sg)
      a  == IF ka \in {"hd", "hl", "hi", "hf", "B"} THEN MInner2(ka, Pick({"+", "-"}), sg) ELSE MNum2(ka, sg)
  IN IF sw THEN CHOOSE z \in { OpsText(o, kb, ka, y, x) : x \in {a}, y \in {b} } : TRUE ELSE CHOOSE z \in { OpsText(o, ka, kb, x, y) : x \in {a}, y \in {b} } : TRUE
(* two expressions of the same type that hold different constants *)
TwinOf(i) ==
  LET o == <<"/", "-", "+", "*">>[1 + (i % 4)]
      p == <<"+", "-">>[1 + ((i \div 4) % 2)]
      k == <<"hd", "hl">>[1 + ((i \div 8) % 2)]
      q == Pick(Arith)
      cs == IF Pick(1..2) = 1 THEN (IF k = "hd" THEN <<C("16777217.5"), C("16777216.5")>> ELSE <<CL("16777217"), CL("16777216")>>) ELSE (IF k = "hd" THEN <<C("2.5"), C("0.5")>> ELSE <<CL("3"), CL("-2")>>)
      W(x) == IF (i \div 16) % 2 = 0 THEN x ELSE Bin(q, x, Y)
  IN CHOOSE z \in { OpsText(o, k, k, W(Bin(p, cs[1], t)), W(Bin(p, cs[2], t))) : t \in {Ofs(<<X, Y, Bin("*", X, Y), Bin("+", X, CI(1))>>)} } : TRUE
FnKinds == <<"cd", "cl", "v", "u", "b", "e", "e2", "V", "B", "hd">>
FunSeq == <<"exp", "sin", "cos", "tan", "fabs", "sqrt", "log", "log10">>
SyCalls == <<"grad f", "grad u", "div f", "div u", "div b", "div e", "laplace f", "laplace e", "laplace u">>
FnOf(i, s) ==
  LET nf == 8 * Len(FnKinds)
      q  == i % (nf + 31)
  IN IF q >= nf + 27 THEN LET k == <<"v", "cd", "cl", "C">>[1 + (q - nf - 27)] IN "fn id " \o k \o " " \o Text(OperandOf(k, s))
     ELSE IF q < nf THEN LET k == FnKinds[1 + (q \div 8)] IN "fn " \o FunSeq[1 + (q % 8)] \o " " \o KindText(k) \o " " \o Text(OperandOf(k, s))
     ELSE CASE Pick(1..6) <= 2 -> "fn " \o Pick({"grad", "div", "laplace"}) \o " f " \o Text(OperandOf("f", s))
            [] Pick(1..4) = 1 -> "fn grad u " \o Text(OperandOf("u", s))
            [] Pick(1..3) = 1 -> "fn " \o Pick({"div"}) \o " u " \o Text(OperandOf("u", s))
            [] Pick(1..2) = 1 -> "fn div b " \o Text(OperandOf("b", s))
            [] OTHER -> "fn " \o Pick({"div", "laplace", "grad"}) \o " e " \o Text(OperandOf("e2", s))
(* derivative of every kind of expression with respect to every kind of variable *)
DfKinds == <<"d", "cd", "cl", "v", "u", "b", "e", "e2", "C", "V", "B">>
DfPf == [Diffb EXCEPT !.nv = 3]
DfOperand(k) == CASE k = "u" -> Un(Pick(Diffb.fn), Tree(2, DfPf))
                  [] k = "b" -> Bin(Pick(Arith), Tree(1, DfPf), Tree(2, DfPf))
                  [] k = "e2" -> Tree(3, DfPf)
                  [] k = "e" -> Ofs(<<C("0"), C("2"), X, Y, Var(2)>>)
                  [] OTHER -> OperandOf(k, TRUE)
DfOf(i) ==
  LET k == DfKinds[1 + (i % Len(DfKinds))]
      w == IF k \in {"C", "V", "B"} THEN "V" ELSE IF k \in {"d", "cd", "cl"} THEN "v" ELSE Pick({"v", "V"})
  IN "df " \o KindText(k) \o " " \o Text(DfOperand(k)) \o " " \o w \o " " \o Text(OperandOf("v", TRUE))
(* equations, intervals and integrals from every supported pair of kinds *)
MkLeft  == <<"cd", "cl", "v", "f", "u", "b", "e", "C", "V", "B">>
MkRight == <<"d", "i", "cd", "cl", "v", "f", "u", "b", "e", "C", "V", "B">>
MkNum   == <<"cd", "v", "V", "u", "b", "e", "cl", "d", "i">>
MkCt    == <<"C", "V", "B", "F">>
MkOp(k) == IF k = "F" THEN Fs(Pick({0, 1, 2}), Pick({0, 1})) ELSE OperandOf(k, TRUE)
MkPairText(f, ka, kb) == "mk " \o f \o " " \o ka \o " " \o Text(MkOp(ka)) \o " " \o kb \o " " \o Text(MkOp(kb))
MkPair(i) ==
  LET f  == IF i % 2 = 0 THEN "eq" ELSE "iv"
      m  == (i \div 2) % 145
  IN IF m < 120 THEN LET ka == MkLeft[1 + (m % 10)]
                         kb == MkRight[1 + (m \div 10)]
                     IN MkPairText(f, ka, IF ka \in {"C", "V", "B"} /\ f = "iv" /\ kb \in {"d", "i"} THEN "e" ELSE kb)
     ELSE IF m < 129 THEN MkPairText(f, IF m = 128 /\ f = "iv" THEN "i" ELSE "d", IF f = "eq" /\ m >= 127 THEN "e" ELSE MkNum[m - 119])
     ELSE MkPairText(f, MkCt[1 + (m % 4)], MkCt[1 + ((m \div 4) % 4)])
MkInt(i) ==
  CASE i % 3 = 0 -> "mki e " \o Text(OperandOf("e2", FALSE)) \o " " \o Pick({"v", "V"}) \o " " \o Text(OperandOf("v", TRUE)) \o " " \o Text(OperandOf("e", TRUE)) \o " " \o Text(OperandOf("e2", TRUE))
    [] i % 3 = 1 -> "mki b " \o Text(OperandOf("b", FALSE)) \o " V " \o Text(OperandOf("v", TRUE)) \o " " \o Text(OperandOf("e2", TRUE)) \o " " \o Text(OperandOf("e", TRUE))
    [] OTHER -> LET k == <<"cd", "cl", "v", "f", "u", "b", "e">>[1 + ((i \div 3) % 7)]
                IN "mks " \o k \o " " \o Text(OperandOf(k, TRUE)) \o " " \o ToString(Pick(0..3))
NextOps == /\ n < Skip + Count
           /\ n' = n + 1
           /\ \E s \in {CASE Kind = "ops" -> OpsOf(n, n < 4 * NK * NK)
                          [] Kind = "rops" -> RopsOf(n)
                          [] Kind = "merge2" -> Merge2Of(n)
                          [] Kind = "merge" -> (IF n < 384 \/ n >= 448 THEN MergeOf(n) ELSE TwinOf(n))
                          [] Kind = "fns" -> FnOf(n, n < 200)
                          [] Kind = "dfs" -> DfOf(n)
                          [] Kind = "mks2" -> (IF n % 420 < 290 THEN MkPair(n % 420) ELSE MkInt(n))
                          [] OTHER -> CtCall(Kind, n)} : PrintT("GEN " \o s)
=============================================================================
