-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The environment of the library: which calls a client may make.  Every   *)
(* step picks one call, with operands from the expression language of      *)
(* Expr.tla, and prints it in the form the driver reads.  The first calls   *)
(* walk systematically through all pairs of small operands (First), later   *)
(* ones are drawn at random (Any).  Run with -simulate num=1.               *)
(***************************************************************************)
EXTENDS Expr, TLC, IOUtils, SequencesExt

Kind  == IOEnv.GEN_KIND
Count == atoi(IOEnv.GEN_COUNT)     \* calls to make
Skip  == atoi(IOEnv.GEN_SKIP)      \* index of the first call
Depth == atoi(IOEnv.GEN_DEPTH)

(* tags of function symbols: unknown, test, and others where no default name matters *)
Tags == IF Kind \in {"latex", "latexh", "hilatex", "xlatex", "dlatex"} THEN {0, 1} ELSE {0, 1, 3, 12}

VARIABLE n

(* ---- text of a tree ---- *)
C(h)   == [k |-> "c", t |-> "d", h |-> h]
CL(h)  == [k |-> "c", t |-> "l", h |-> h]
CInt(h) == [k |-> "c", t |-> "i", h |-> h]      \* rt_constant<int>, rt_constant<float>
CFlt(h) == [k |-> "c", t |-> "g", h |-> h]
Num(i) == ToString(i)
RECURSIVE Text(_), Texts(_)
Texts(s) == IF s = <<>> THEN "" ELSE " " \o Text(Head(s)) \o Texts(Tail(s))
Text(m) ==
  CASE m.k = "c" -> "c " \o m.t \o " " \o m.h
    [] m.k = "v" -> "v " \o Num(m.i)
    [] m.k = "f" -> "f " \o Num(m.i) \o " " \o Num(m.g)
    [] m.k = "b" -> "b " \o m.o \o " " \o Text(m.a) \o " " \o Text(m.b)
    [] m.k = "w" -> "w " \o Num(Len(m.e)) \o Texts(m.e)
    [] m.k = "u" ->
         CASE m.o = "pd" -> "u pd " \o Num(m.p[1]) \o " " \o Text(m.a)
           [] m.o = "sint" -> "u sint " \o Num(m.p[1]) \o " " \o Text(m.a)
           [] m.o = "int" -> "u int " \o Text(m.x[1]) \o " " \o Text(m.x[2]) \o " " \o Num(m.p[1]) \o " " \o Text(m.a)
           [] OTHER -> "u " \o m.o \o " " \o Text(m.a)
UnP(o, p, x, a) == [k |-> "u", o |-> o, p |-> p, x |-> x, a |-> a]

(* ---- random trees ---- *)
(* a profile: cs constants, ts scalar types, nv variables, ns symbols, fn functions, sy symbolic ops, dim of vectors *)
Small  == {"0", "1", "2", "3", "-1", "0.5", "-2", "0.25", "4"}
Poly   == [cs |-> Small, lng |-> FALSE, nv |-> 3, ns |-> 0, fn |-> {}, sy |-> {}, op |-> {"+", "-", "*"}, dim |-> 0]
Ratio  == [Poly EXCEPT !.op = Arith]
Scalar == [Ratio EXCEPT !.fn = Funcs]
Diffb  == [Scalar EXCEPT !.fn = Funcs \ {"fabs"}]
Wide   == [Scalar EXCEPT !.nv = 6, !.lng = TRUE]
Symb   == [Scalar EXCEPT !.ns = 3, !.sy = Symbolic]
SymbD  == [Diffb EXCEPT !.ns = 3, !.sy = {"grad"}]
Pde    == [Poly EXCEPT !.ns = 3, !.sy = {"grad", "div"}, !.nv = 2]
AllE   == [Symb EXCEPT !.dim = 2, !.lng = TRUE]

(* r is a fresh random number in 1..100 for every use of Pick *)
RECURSIVE Tree(_, _), NodeOf(_, _, _), VecOf(_, _)
Leaf(pf, r) ==
  IF r <= 18 THEN C("0")
  ELSE IF r <= 34 THEN C("1")
  ELSE IF pf.lng /\ r <= 36 THEN CL(RandomElement({"0", "1", "2", "-3", "7"}))
  ELSE IF pf.lng /\ r = 37 THEN CInt(RandomElement({"0", "1", "2", "-3", "7"}))
  ELSE IF pf.lng /\ r = 38 THEN CFlt(RandomElement({"0", "1", "2", "-3", "0.5"}))
  ELSE IF r <= 50 THEN C(RandomElement(pf.cs))
  ELSE IF pf.ns > 0 /\ r <= 68 THEN Fs(RandomElement(0..(pf.ns - 1)), RandomElement(Tags))
  ELSE Var(RandomElement(0..(pf.nv - 1)))
NodeOf(d, pf, r) ==
  IF d <= 0 \/ r <= 8 THEN CHOOSE z \in {Leaf(pf, q) : q \in {RandomElement(1..100)}} : TRUE
  ELSE IF r <= 30 /\ pf.fn # {} THEN Un(RandomElement(pf.fn), Tree(d - 1, pf))
  ELSE IF r <= 42 /\ pf.sy # {} THEN
         CHOOSE z \in { CASE o = "pd"   -> UnP("pd", <<RandomElement(0..2)>>, <<>>, Tree(d - 1, pf))
                          [] o = "sint" -> UnP("sint", <<RandomElement(0..2)>>, <<>>, Tree(d - 1, pf))
                          [] o = "int"  -> UnP("int", <<RandomElement(0..2)>>, <<Tree(0, Poly), Tree(0, Poly)>>, Tree(d - 1, pf))
                          [] OTHER -> Un(o, Tree(d - 1, pf))
                        : o \in {RandomElement(pf.sy)} } : TRUE
  ELSE IF r <= 50 /\ pf.dim > 0 THEN
         (CASE r <= 46 -> Bin("*", VecOf(pf.dim, pf), VecOf(pf.dim, pf))
            [] r <= 48 -> Bin("*", Bin("*", RandomElement({Var(0), C("2"), Un("sin", Var(1))}), VecOf(pf.dim, pf)), VecOf(pf.dim, pf))
            [] OTHER   -> Bin("*", VecOf(pf.dim, pf), Bin(RandomElement({"+", "-"}), VecOf(pf.dim, pf), VecOf(pf.dim, pf))))
  ELSE Bin(RandomElement(pf.op), Tree(d - 1, pf), Tree(d - 1, pf))
VecOf(m, pf) == Vec([j \in 1..m |-> Tree(1, [pf EXCEPT !.dim = 0])])
Tree(d, pf) == CHOOSE z \in { NodeOf(d, pf, r) : r \in {RandomElement(1..100)} } : TRUE
(* a tree of a random depth up to d that is not just a leaf *)
Deep(d, pf) == CHOOSE z \in { NodeOf(q, pf, r) : q \in {RandomElement(1..d)}, r \in {RandomElement(15..100)} } : TRUE
Pick(S) == RandomElement(S)

(* ---- small operands, for the systematic part ---- *)
X == Var(0)
Y == Var(1)
PoolA == << C("0"), C("1"), C("2"), C("-1"), C("0.5"), X, Y,
            Bin("+", C("1"), C("2")), Bin("*", C("0"), X), Bin("-", X, X), Bin("+", X, Y), Bin("*", X, Y), Bin("/", X, Y),
            Un("sin", X), Un("exp", C("0")), Un("id", Bin("+", C("1"), C("1"))), Bin("-", C("0"), X), Bin("/", C("1"), C("2")) >>
PoolS == PoolA \o << Fs(0, 0), Fs(1, 1), Un("grad", Fs(0, 0)), UnP("pd", <<1>>, <<>>, Fs(0, 0)), UnP("sint", <<0>>, <<>>, Bin("*", C("1"), Fs(0, 0))),
            CL("0"), CL("1"), CL("3") >>
PoolU == << X, Y, C("2"), Bin("*", X, Y), Bin("*", X, X), Bin("+", X, C("1")), Bin("-", C("1"), X), Bin("/", C("1"), X), Bin("-", X, Y) >>
PoolE == << C("0"), C("1"), C("-1"), CL("1"), X, Y, Fs(0, 0), Fs(0, 1), Fs(1, 0), Fs(0, 3), Fs(1, 3), Fs(0, 12), Var(256), Var(65536), Fs(65536, 0), UnP("pd", <<65536>>, <<>>, X),
            Un("id", X), Un("exp", X), Un("sin", X), Un("cos", X), Un("tan", X), Un("fabs", X), Un("sqrt", X), Un("log", X), Un("log10", X),
            Un("sin", Y), Un("grad", X), Un("div", X), UnP("pd", <<0>>, <<>>, X), UnP("pd", <<1>>, <<>>, X), UnP("pd", <<0>>, <<>>, Y),
            UnP("sint", <<0>>, <<>>, X), UnP("sint", <<1>>, <<>>, X),
            UnP("int", <<0>>, <<C("0"), C("1")>>, X), UnP("int", <<1>>, <<C("0"), C("1")>>, X),
            UnP("int", <<0>>, <<C("0"), C("2")>>, X), UnP("int", <<0>>, <<C("1"), C("1")>>, X), UnP("int", <<0>>, <<C("0"), C("1")>>, Y),
            Bin("+", X, Y), Bin("-", X, Y), Bin("*", X, Y), Bin("/", X, Y), Bin("+", Y, X), Bin("+", X, X), Bin("-", X, C("1")),
            Vec(<<X>>), Vec(<<X, Y>>), Vec(<<Y, X>>), Vec(<<X, Y, X>>), Vec(<<C("0"), C("0")>>), Vec(<<>>) >>

(* numbers that a narrower type or a tolerance would lose; small expressions with them, in both orders *)
PoolN == << C("9.094947017729282e-13"), C("1.0000000298023224"), C("8589934592"), C("0.1"), C("-0.75"), CL("4294967296"), C("1e-9"), C("-3.0000001") >>
PoolM == << X, C("1"), C("2"), C("0"), Bin("+", X, Y), Un("sin", X) >>
NN == Len(PoolN) * Len(PoolM) * 8
NumBin(i) == LET a == PoolN[1 + (i % Len(PoolN))]
                 q == i \div Len(PoolN)
                 b == PoolM[1 + (q % Len(PoolM))]
                 r == q \div Len(PoolM)
                 o == <<"+", "-", "*", "/">>[1 + (r % 4)]
             IN IF r \div 4 = 0 THEN Bin(o, a, b) ELSE Bin(o, b, a)
(* one constant very near to a neutral element next to something that is no constant *)
NearN == << C("1.0000000001"), C("0.9999999999"), C("-1.0000000001"), C("1e-10"), C("-3e-11"), C("2.0000000001") >>
NearM == << X, Bin("+", X, Y), Un("sin", X), Bin("*", Y, X) >>
NearBin(i) == LET a == NearN[1 + (i % 6)]
                  b == NearM[1 + ((i \div 6) % 4)]
                  o == <<"+", "-", "*", "/">>[1 + ((i \div 24) % 4)]
                  t == IF (i \div 96) % 2 = 0 THEN Bin(o, a, b) ELSE Bin(o, b, a)
              IN IF (i \div 192) % 2 = 0 THEN t ELSE Bin("*", t, Un("exp", Y))
(* vectors of every length to 7 that differ in one component *)
LongVecs(i) == LET len == 1 + (i % 7)
                   at == 1 + ((i \div 7) % len)
                   f == [j \in 1..len |-> IF j % 3 = 0 THEN C(Num(j)) ELSE IF j % 3 = 1 THEN Var(j % 2) ELSE Bin("+", X, C("2"))]
               IN Text(Vec(f)) \o " " \o Text(Vec([f EXCEPT ![at] = <<C("9"), Var(1), Bin("-", X, C("2")), Bin("+", X, C("3"))>>[1 + ((i \div 49) % 4)]]))
(* the same variables and symbols under large numbers *)
RECURSIVE High(_)
High(m) == CASE m.k = "v" -> Var(m.i + 9)
             [] m.k = "f" -> Fs(m.i + 9, m.g)
             [] m.k = "u" -> [m EXCEPT !.a = High(m.a), !.p = [j \in 1..Len(m.p) |-> m.p[j] + 9], !.x = [j \in 1..Len(m.x) |-> High(m.x[j])]]
             [] m.k = "b" -> [m EXCEPT !.a = High(m.a), !.b = High(m.b)]
             [] m.k = "w" -> [m EXCEPT !.e = [j \in 1..Len(m.e) |-> High(m.e[j])]]
             [] OTHER -> m
(* objects that differ in a number only, by every power of two and of ten *)
Deltas == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 10, 100, 1000>>
NumHost(h, m0) == CASE h = 0 -> Var(m0) [] h = 1 -> Fs(m0, 1) [] h = 2 -> UnP("pd", <<m0>>, <<>>, Fs(0, 0)) [] h = 3 -> UnP("sint", <<m0>>, <<>>, X)
                   [] h = 4 -> UnP("int", <<m0>>, <<C("0"), C("1")>>, Bin("*", X, Y)) [] h = 5 -> UnP("int", <<0>>, <<C("0"), Var(m0)>>, X)
                   [] h = 6 -> Bin("+", Un("sin", Y), Var(m0)) [] h = 7 -> Bin("*", Fs(m0, 0), C("2")) [] OTHER -> Vec(<<X, Var(m0), Fs(m0, 1)>>)
NumPair(i) == LET m0 == (i \div 9) % 2
                  d == Deltas[1 + ((i \div 18) % Len(Deltas))]
                  a == NumHost(i % 9, m0)
                  b == NumHost(i % 9, m0 + d)
              IN IF (i \div 378) % 2 = 0 THEN Text(a) \o " " \o Text(b) ELSE Text(b) \o " " \o Text(a)
NumBoth(i, o) == LET m0 == (i \div 2) % 2
                     d == Deltas[1 + ((i \div 4) % Len(Deltas))]
                     q == IF i % 2 = 0 THEN "v " \o Num(m0) ELSE "f " \o Num(m0) \o " 1"
                     a == NumHost(i % 2, m0)
                     b == NumHost(i % 2, m0 + d)
                     t == IF (i \div 84) % 2 = 0 THEN Bin("*", a, Bin("+", b, C("3"))) ELSE Bin("+", Bin("*", b, C("3")), a)
                 IN CASE o = "subst" -> "subst 1 " \o q \o " c d 5 " \o Text(t) [] o = "diff" -> "diff " \o q \o (IF i % 2 = 0 THEN " 0 " ELSE " ") \o Text(t)
                      [] OTHER -> o \o Text(t)
(* every constant replaced by one that prints alike (six digits) *)
Twin(h) == CASE h = "1" -> "1.0000001" [] h = "2" -> "2.00000003" [] h = "3" -> "2.9999999" [] h = "-1" -> "-1.0000001" [] h = "0.5" -> "0.50000001"
             [] h = "-2" -> "-1.9999999" [] h = "0.25" -> "0.25000001" [] h = "4" -> "4.0000001" [] OTHER -> h
RECURSIVE Twins(_)
Twins(m) == CASE m.k = "c" -> IF m.t = "d" THEN C(Twin(m.h)) ELSE m
              [] m.k = "u" -> [m EXCEPT !.a = Twins(m.a), !.x = [j \in 1..Len(m.x) |-> Twins(m.x[j])]]
              [] m.k = "b" -> [m EXCEPT !.a = Twins(m.a), !.b = Twins(m.b)]
              [] m.k = "w" -> [m EXCEPT !.e = [j \in 1..Len(m.e) |-> Twins(m.e[j])]]
              [] OTHER -> m
RECURSIVE SubTree(_, _), Mutate(_, _)
RECURSIVE Far(_, _)        \* ... moved by k
Far(m, k) == CASE m.k = "v" -> Var(m.i + k)
               [] m.k = "f" -> Fs(m.i + k, m.g)
               [] m.k = "u" -> [m EXCEPT !.a = Far(m.a, k), !.p = [j \in 1..Len(m.p) |-> m.p[j] + k], !.x = [j \in 1..Len(m.x) |-> Far(m.x[j], k)]]
               [] m.k = "b" -> [m EXCEPT !.a = Far(m.a, k), !.b = Far(m.b, k)]
               [] m.k = "w" -> [m EXCEPT !.e = [j \in 1..Len(m.e) |-> Far(m.e[j], k)]]
               [] OTHER -> m
Offsets == {0, 0, 9, 60, 127, 250, 32760, 65530, 70000}
Huge    == 30000000
HugeOff == Offsets \cup {Huge}      \* stands for 2^32, see the harness
(* long chains of operations: leaning left, right, nested in functions, mixed *)
RECURSIVE Chain(_, _, _)
Chain(k, pf, sh) ==
  IF k = 0 THEN Tree(0, pf)
  ELSE CASE sh = "left"  -> Bin(RandomElement({"+", "-", "*", "+", "-"}), Chain(k - 1, pf, sh), Tree(RandomElement({0, 0, 1}), pf))
         [] sh = "right" -> Bin(RandomElement({"+", "-", "*", "+", "-"}), Tree(RandomElement({0, 0, 1}), pf), Chain(k - 1, pf, sh))
         [] sh = "funs"  -> IF k % 2 = 0 /\ pf.fn # {} THEN Un(RandomElement(pf.fn), Chain(k - 1, pf, sh)) ELSE Bin(RandomElement(pf.op), Chain(k - 1, pf, sh), Tree(0, pf))
         [] OTHER -> Bin(RandomElement(pf.op), Chain((k - 1) \div 2, pf, sh), Chain(k - 1 - (k - 1) \div 2, pf, sh))
Long(lo, hi, pf) == CHOOSE z \in { Chain(k, pf, sh) : k \in {RandomElement(lo..hi)}, sh \in {RandomElement({"left", "right", "funs", "bushy"})} } : TRUE
(* ---- size: deep trees, long lists, long vectors ---- *)
(* variables 0, 1, 2 spread over d of them, preferably the last *)
Spread(t, d) == Subst(t, <<Var(0), Var(1), Var(2)>>, <<Var(d - 1), Var(Pick(0..(d - 1))), Var(Pick({d - 2, d \div 2, 0, 16, 32}))>>)
TallLeaf(q0) == Pick({Var(0), Var(1), Var(2), C("2"), C("0.5"), C("-3"), C("0"), C("1")})
RECURSIVE Tall(_, _, _)
Tall(k, sh, fs) == IF k = 0 THEN Bin("*", Var(0), Var(1))
                   ELSE IF fs /\ k % 9 = 4 THEN Un("id", Tall(k - 1, sh, fs))
                   ELSE IF sh = "left" THEN Bin(Pick({"+", "-"}), Tall(k - 1, sh, fs), TallLeaf(k))
                   ELSE IF sh = "right" THEN Bin(Pick({"+", "-"}), TallLeaf(k), Tall(k - 1, sh, fs))
                   ELSE Bin(Pick({"+", "-"}), Tall((k - 1) \div 2, sh, fs), Tall(k - 1 - (k - 1) \div 2, sh, fs))
TallTree(fs) == CHOOSE z \in {Tall(k, sh, fs) : k \in {Pick({33, 50, 65, 80, 101, 129})}, sh \in {Pick({"left", "right", "both"})}} : TRUE
(* every level becomes a constant only when the one below is *)
RECURSIVE Rounds(_)
Rounds(k) == IF k = 0 THEN Pick({Bin("*", X, C("0")), Bin("/", C("0"), Y), Bin("*", C("0"), Bin("+", X, Y))})
             ELSE CASE Pick(1..3) = 1 -> Bin("*", Rounds(k - 1), TallLeaf(k))
                    [] Pick(1..2) = 1 -> Bin("*", TallLeaf(k), Rounds(k - 1))
                    [] OTHER -> Bin("/", Rounds(k - 1), Pick({Var(0), Var(1), C("2")}))
Item(j) == CASE j % 7 = 0 -> Var(j)
             [] j % 7 = 1 -> Fs(j, 1)
             [] j % 7 = 2 -> Un("sin", Var(j))
             [] j % 7 = 3 -> Bin("+", Var(j), C("2"))
             [] j % 7 = 4 -> UnP("pd", <<j>>, <<>>, Fs(0, 0))
             [] j % 7 = 5 -> Vec(<<Var(j), C("1")>>)
             [] OTHER     -> C(Num(100 + j))
RECURSIVE BigPairs(_, _, _, _)
BigPairs(j, c, a, m) == IF j = c THEN "" ELSE Text(Item((a + m * j) % c)) \o " " \o Text(Pick({Var(0), Bin("*", Var(1), C("2")), C("3"), C("-1"), C("0.5"), Fs(0, 0)})) \o " " \o BigPairs(j + 1, c, a, m)
RECURSIVE BigHost(_, _)
BigHost(k, c) == IF k = 0 THEN Pick({Var(201), Item(Pick(0..(c - 1))), Item(Pick(0..(c - 1)))})
                 ELSE Bin(Pick({"+", "-", "*"}), BigHost(k - 1, c), Item(Pick(0..(c - 1))))
BigLen(q0) == Pick({16, 17, 24, 32, 33, 40})
BigVec(m, mul) == Vec([j \in 1..m |-> CASE j % 3 = 0 -> C(Num(j % 10)) [] j % 3 = 1 -> Var(j % 3) [] OTHER -> Bin("+", Var((j * mul) % 2), C("2"))])
BigVecs(at) == CHOOSE z \in {Text(v) \o " " \o Text(IF at % 4 = 0 THEN v ELSE [v EXCEPT !.e[1 + ((at * 7) % Len(v.e))] = Pick({C("9.5"), Var(3), Bin("-", X, C("2"))})]) : v \in {BigVec(BigLen(0), Pick(1..3))}} : TRUE
(* numbers of extreme size *)
Extremes == {"1e-20", "-1e-200", "1e200", "123456789", "1e15", "-4503599627370497.5", "1e-13", "2147483648", "-2147483649", "16777217", "0.333333333333333315", "1.0000001"}
RECURSIVE Pairs(_, _)
Pairs(k, t) == IF k = 0 THEN "" ELSE Text(SubTree(t, RandomElement({0, 20}))) \o " " \o Text(Tree(1, Symb)) \o " " \o Pairs(k - 1, t)
(* pair number i of a pool *)
Fst(p, i) == p[1 + (i \div Len(p))]
Snd(p, i) == p[1 + (i % Len(p))]
Sq(p) == Len(p) * Len(p)
OpSeq == <<"+", "-", "*", "/">>
FnSeq == SetToSeq(Funcs)

(* ---- derived operands ---- *)
(* a random subtree *)
SubTree(m, r) ==
  IF r <= 30 THEN m
  ELSE CASE m.k = "u" -> SubTree(m.a, RandomElement(1..100))
         [] m.k = "b" -> SubTree(RandomElement({m.a, m.b}), RandomElement(1..100))
         [] OTHER -> m
(* the same tree with one place changed *)
Swap(m) == [m EXCEPT !.a = m.b, !.b = m.a]
Touch(m) ==
  CASE m.k = "b" -> IF RandomElement({TRUE, FALSE}) THEN Swap(m) ELSE [m EXCEPT !.o = RandomElement(Arith)]
    [] m.k = "u" /\ m.o \in {"pd", "sint"} -> [m EXCEPT !.p = <<RandomElement((0..3) \cup {m.p[1] + 16, m.p[1] + 256})>>]
    [] m.k = "u" /\ m.o = "int" -> CASE RandomElement(1..3) = 1 -> [m EXCEPT !.p = <<RandomElement(0..3)>>]
                                    [] OTHER -> [m EXCEPT !.x[RandomElement({1, 2})] = Tree(0, Poly)]
    [] m.k = "u" -> [m EXCEPT !.o = RandomElement(Funcs \cup {"grad", "div"})]
    [] m.k = "v" -> Var(RandomElement((0..3) \cup {m.i + 256, m.i + 65536}))
    [] m.k = "f" -> Fs(RandomElement((0..2) \cup {m.i, m.i + 65536}), RandomElement(Tags))
    [] m.k = "w" -> IF Len(m.e) > 0 /\ RandomElement({TRUE, FALSE}) THEN [m EXCEPT !.e = Tail(m.e)] ELSE Vec(Append(m.e, Tree(0, Poly)))
    [] OTHER -> C(RandomElement(Small))
Mutate(m, r) ==
  IF r <= 35 THEN Touch(m)
  ELSE CASE m.k = "b" -> IF RandomElement({TRUE, FALSE}) THEN [m EXCEPT !.a = Mutate(m.a, RandomElement(1..100))]
                         ELSE [m EXCEPT !.b = Mutate(m.b, RandomElement(1..100))]
         [] m.k = "u" -> [m EXCEPT !.a = Mutate(m.a, RandomElement(1..100))]
         [] m.k = "w" /\ Len(m.e) > 0 -> CHOOSE z \in {[m EXCEPT !.e[q] = Mutate(m.e[q], RandomElement(1..100))] : q \in {RandomElement(1..Len(m.e))}} : TRUE
         [] OTHER -> Touch(m)
Typed(j, h) == CASE j = 0 -> C(h) [] j = 1 -> CL(h) [] j = 2 -> CInt(h) [] OTHER -> CFlt(h)
(* two trees that are the same, nearly the same, or unrelated *)
Partner(t) == CHOOSE z \in { CASE r = 1 -> t
                              [] r = 2 -> Deep(Depth, AllE)
                              [] r = 3 -> Mutate(Mutate(t, RandomElement(1..100)), RandomElement(1..100))
                              [] r = 4 /\ Kind \in {"eq", "hieq"} -> Twins(t)
                              [] OTHER -> Mutate(t, RandomElement(1..100)) : r \in {RandomElement(1..6)} } : TRUE
PairText(t) == Text(t) \o " " \o Text(Partner(t))
(* objects to print, in pairs *)
Few(m) == Subst(m, <<CL("1")>>, <<C("4")>>)       \* (1 and 1L print alike)
TwoShown(a, b) == Text(Few(a)) \o " 1 " \o Text(Few(b))
PoolText(j) == Text(Few(Fst(PoolE, j % Sq(PoolE)))) \o " " \o Text(Few(Snd(PoolE, j % Sq(PoolE))))
PrintPf == [AllE EXCEPT !.lng = FALSE]
RECURSIVE Shown(_), Parts(_), Partners(_)
Shown(q) == IF q = <<>> THEN "" ELSE " " \o Text(Few(Head(q))) \o Shown(Tail(q))
Parts(k) == IF k = 0 THEN <<>> ELSE <<Tree(RandomElement(0..2), PrintPf)>> \o Parts(k - 1)
(* the same parts, one of them changed, two exchanged, others *)
Partners(q) == CHOOSE z \in { CASE r = 1 -> q
                                [] r = 2 -> Parts(Len(q))
                                [] r = 3 /\ Len(q) > 1 -> [q EXCEPT ![j] = q[1], ![1] = q[j]]
                                [] OTHER -> [q EXCEPT ![j] = Mutate(@, RandomElement(1..100))] : r \in {RandomElement(1..6)}, j \in {RandomElement(1..Len(q))} } : TRUE
PrintList(k, q) == "print " \o k \o " " \o Num(Len(q)) \o Shown(q) \o (CHOOSE z \in {" " \o Num(Len(w)) \o Shown(w) : w \in {Partners(q)}} : TRUE)
PrintCall(r) ==
  CASE r <= 2 -> "print s " \o Num(RandomElement(0..3)) \o " " \o Num(RandomElement({0, 1, 2, 3, 256, 70001}))
    [] r <= 6 -> CHOOSE z \in {PrintList(RandomElement({"e", "n"}), q) : q \in {<<Tree(RandomElement(0..3), PrintPf)>>}} : TRUE
    [] r <= 9 -> CHOOSE z \in {PrintList(RandomElement({"q", "i"}), q) : q \in {Parts(2)}} : TRUE
    [] r = 10 -> CHOOSE z \in {"print w " \o Num(Len(q)) \o Shown(q) \o " " \o Num(Len(w)) \o Shown(w) : q \in {Parts(RandomElement(0..3))}, w \in {Parts(RandomElement(0..3))}} : TRUE
    [] OTHER -> CHOOSE z \in {PrintList("w", q) : q \in {Parts(RandomElement(1..5))}} : TRUE
Coords == {"0", "1", "2", "-3", "0.5", "-0.25", "10", "3.5", "-1e-3", "0.1", "1e5", "-7.25"}
RECURSIVE PointText(_)
PointText(d) == IF d = 0 THEN "" ELSE " " \o RandomElement(Coords) \o PointText(d - 1)
Point(d) == Num(d) \o PointText(d)
Sets == {"all", "none", "+", "-", "*", "/", "+*", "*u", "u", "+-u", "v", "c", "vf", "+-*/", "*/v", "uc", "w", "-*w", "f"}
(* one integral with constant bounds of an integrand in variable i *)
OneVar(i, d) == CHOOSE z \in { Subst(t, <<Var(0), Var(1), Var(2)>>, <<Var(i), Var(i), Var(i)>>) : t \in {Tree(d, RandomElement({Poly, Poly, Ratio}))} } : TRUE
Bound(q0) == CASE RandomElement(1..3) = 1 -> Bin(RandomElement({"+", "-", "*"}), C(RandomElement(Small)), C(RandomElement(Small)))
           [] OTHER -> C(RandomElement(Small \cup {"5", "-0.75"}))
Integral(q0) == CHOOSE z \in { UnP("int", <<i>>, <<Bound(0), Bound(0)>>, OneVar(i, 2)) : i \in {RandomElement(0..3)} } : TRUE
RECURSIVE Integrals(_, _)
Integrals(d, r) ==
  IF d = 0 \/ r <= 25 THEN Integral(0)
  ELSE IF r <= 32 THEN C("0")
  ELSE IF r <= 36 THEN Bin("-", C("1"), C("1"))
  ELSE IF r <= 40 THEN UnP("sint", <<0>>, <<>>, Var(0))
  ELSE IF r <= 44 THEN Tree(1, Poly)
  ELSE IF r <= 47 THEN Bin("*", Integral(0), Integral(0))
  ELSE IF r <= 49 THEN Un("sin", Integral(0))
  ELSE Bin(RandomElement({"+", "-"}), Integrals(d - 1, RandomElement(1..100)), Integrals(d - 1, RandomElement(1..100)))
RECURSIVE IChain(_)
IChain(k) == IF k = 0 THEN Integral(0) ELSE CHOOSE z \in { IF l THEN Bin(o, IChain(k - 1), Integral(0)) ELSE Bin(o, Integral(0), IChain(k - 1)) : l \in {RandomElement({TRUE, FALSE})}, o \in {RandomElement({"+", "-"})} } : TRUE
Names == <<{"alpha", "\\beta"}, {"\\psi", "p"}, {"q_{3}", "T"}>>
RECURSIVE Customs(_)
Customs(c) == IF c = 0 THEN ""
              ELSE (IF RandomElement({TRUE, FALSE}) THEN " v " \o Num(RandomElement(0..2)) ELSE " f " \o Num(RandomElement(0..2)) \o " " \o Num(RandomElement({0, 1})))
                   \o " " \o RandomElement(Names[c]) \o Customs(c - 1)
(* a name for every symbol, in any order *)
ManySyms  == [j \in 1..16 |-> IF j <= 8 THEN Var(j - 1) ELSE Fs((j - 9) \div 4, <<0, 1, 3, 12>>[1 + ((j - 9) % 4)])]
ManyNames == <<"alpha", "\\beta", "\\psi", "p", "q_{3}", "T", "\\rho", "K", "w^h", "y_{7}", "q_{1}", "\\gamma", "y_{12}", "A", "\\delta", "r">>
RECURSIVE ManyCustoms(_, _, _, _)
ManyCustoms(j, a, m, b) == IF j = 16 THEN "" ELSE " " \o Text(ManySyms[1 + ((a + m * j) % 16)]) \o " " \o ManyNames[1 + ((b + 7 * j) % 16)] \o ManyCustoms(j + 1, a, m, b)
(* histories of translators *)
Atom1(r) == IF RandomElement(1..2) = 1 THEN Text(Var(RandomElement(0..3))) ELSE Text(Fs(RandomElement(0..2), RandomElement({0, 1})))
RECURSIVE WithVec(_)
WithVec(d) == IF d = 0 THEN VecOf(RandomElement(1..3), Symb)
              ELSE CASE RandomElement(1..5) = 1 -> Un(RandomElement({"sin", "exp", "id", "sqrt"}), WithVec(d - 1))
                     [] RandomElement(1..2) = 1 -> Bin(RandomElement(Arith), Tree(1, Symb), WithVec(d - 1))
                     [] OTHER -> Bin(RandomElement(Arith), WithVec(d - 1), Tree(1, Symb))
TrAct(r) == CASE r <= 35 -> " c " \o Num(RandomElement(0..2)) \o " " \o Atom1(r) \o " " \o RandomElement({"alpha", "\\beta", "\\psi", "p", "q_{3}", "T", "\\rho", "K", "w^h"})
              [] r <= 45 -> " k " \o Num(RandomElement(0..2)) \o " " \o Num(RandomElement(0..2))
              [] r <= 55 -> " a " \o Num(RandomElement(0..2)) \o " " \o Num(RandomElement(0..2))
              [] r <= 58 -> " n " \o Num(RandomElement(0..2))
              [] r <= 66 -> " v " \o Num(RandomElement(0..2))
              [] r <= 78 -> " p " \o Num(RandomElement(0..2)) \o " " \o Text(WithVec(RandomElement(0..2)))
              [] OTHER -> " p " \o Num(RandomElement(0..2)) \o " " \o Text(Tree(2, [Symb EXCEPT !.nv = 4, !.lng = TRUE]))
RECURSIVE TrActs(_)
TrActs(k) == IF k = 0 THEN "" ELSE (CHOOSE z \in {TrAct(q) : q \in {RandomElement(1..100)}} : TRUE) \o TrActs(k - 1)
(* weak forms: gradients and divergences of u, v and others *)
Weak == [Pde EXCEPT !.sy = {}, !.fn = {"sin", "exp", "id"}]
RECURSIVE WeakForm(_, _)
DiffTerm(q0) == 
  CASE RandomElement(1..4) = 1 -> Bin("*", Un("grad", Fs(0, RandomElement({0, 1}))), Un("grad", Fs(0, RandomElement({0, 1}))))
    [] RandomElement(1..3) = 1 -> Un("div", Fs(0, RandomElement({0, 1})))
    [] OTHER -> Bin("*", Bin("*", Tree(1, Weak), Un("grad", Fs(0, RandomElement({0, 1})))), Un("grad", Fs(0, RandomElement({0, 1}))))
WeakForm(d, r) ==
  IF d = 0 \/ r <= 30 THEN (IF RandomElement(1..3) = 1 THEN Tree(1, Weak) ELSE DiffTerm(0))
  ELSE IF r <= 40 THEN UnP("sint", <<RandomElement(0..1)>>, <<>>, WeakForm(d - 1, RandomElement(1..100)))
  ELSE Bin(RandomElement({"+", "-", "*"}), WeakForm(d - 1, RandomElement(1..100)), WeakForm(d - 1, RandomElement(1..100)))
WF(q0) == WeakForm(RandomElement(1..3), RandomElement(1..100))
SymInt == [Poly EXCEPT !.sy = {"sint"}, !.ns = 2, !.fn = {"exp", "sin"}, !.op = Arith]
Searches == <<X, Y, Fs(0, 0), Fs(0, 1), Fs(1, 0), C("1"), C("2"), Bin("+", X, Y), Bin("*", X, Y), Un("sin", X), Bin("-", Y, X), CL("1"),
              Bin("*", C("2"), X), Vec(<<X>>), Vec(<<X, Y>>), Un("grad", Fs(0, 0))>>
Hosts == <<Bin("+", X, Y), Bin("*", Bin("+", X, Y), Un("sin", X)), Bin("-", Bin("+", Y, X), Bin("*", X, Y)), Un("exp", Bin("*", C("2"), X)),
           Bin("*", Fs(0, 0), Bin("+", Fs(0, 1), Fs(1, 0))), Bin("+", Bin("+", X, Y), Bin("+", X, Y)), Bin("-", Y, X), Un("grad", Fs(0, 0)),
           Bin("*", Vec(<<X, Y>>), Vec(<<Y, C("1")>>)), Bin("/", CL("1"), Bin("+", C("1"), X)), Un("sin", X), Vec(<<X, Y>>),
           Bin("*", Un("div", Fs(0, 0)), UnP("pd", <<1>>, <<>>, Fs(0, 0)))>>
Repls == <<C("2.5"), Y, X, Bin("*", Y, C("2")), Un("sin", X), Fs(0, 0), C("0"), Vec(<<Y, C("3")>>)>>

Rng(q) == {q[j] : j \in 1..Len(q)}
\* a vector makes way for a vector of its width, a scalar for a scalar
Fits(s, r) == IF s.k = "w" THEN r.k = "w" /\ Len(r.e) = Len(s.e) ELSE r.k # "w"
ReplsFor(s) == SelectSeq(Repls, LAMBDA r : Fits(s, r))
SHR == Len(Searches) * Len(Hosts) * Len(Repls)
RECURSIVE List(_)
List(k) == IF k = 0 THEN ""
           ELSE (CHOOSE z \in {Text(s) \o " " \o Text(RandomElement(Rng(ReplsFor(s)))) \o " " : s \in {RandomElement({q \in Rng(Searches) : ReplsFor(q) # <<>>})}} : TRUE)
                \o List(k - 1)

(* ---- calls ---- *)
SubstCall(t) ==
  CASE RandomElement(1..5) = 1 ->
         "subst 2 " \o Text(SubTree(t, 50)) \o " " \o Text(Tree(1, Symb)) \o " " \o Text(SubTree(t, 50)) \o " " \o Text(Tree(2, Symb)) \o " " \o Text(t)
    [] RandomElement(1..5) = 1 ->
         "subst 3 v 0 " \o Text(Tree(1, Symb)) \o " v 1 " \o Text(Tree(1, Symb)) \o " " \o Text(SubTree(t, 20)) \o " " \o Text(Tree(0, Symb)) \o " " \o Text(t)
    [] RandomElement(1..3) = 1 -> "subst 1 " \o Text(Mutate(SubTree(t, 20), 50)) \o " " \o Text(Tree(1, Symb)) \o " " \o Text(t)
    [] OTHER -> "subst 1 " \o Text(SubTree(t, 20)) \o " " \o Text(Tree(1, Symb)) \o " " \o Text(t)
Call(kind, i) ==
  CASE kind = "simp" ->
         IF i < 4 * Sq(PoolS)
         THEN LET q == i \div 4 IN "simp " \o Text(Bin(OpSeq[1 + (i % 4)], Fst(PoolS, q), Snd(PoolS, q)))
         ELSE "simp " \o Text(Deep(Depth, Pick({Scalar, Scalar, Symb, Ratio, AllE})))
    [] kind = "diffv" ->
         IF i < 4 * Sq(PoolU)
         THEN LET q == i \div 4 IN "diff v 0 0 " \o Text(Bin(OpSeq[1 + (i % 4)], Fst(PoolU, q), Snd(PoolU, q)))
         ELSE IF i < 4 * Sq(PoolU) + 9 * Len(PoolU)
         THEN LET q == i - 4 * Sq(PoolU) IN "diff v " \o Num(i % 2) \o " 0 " \o Text(Un(FnSeq[1 + (q % 9)], PoolU[1 + (q \div 9)]))
         ELSE "diff v " \o Num(Pick(0..4)) \o " 0 " \o
              (IF Pick(1..12) = 1 THEN Text(VecOf(Pick(1..3), Diffb)) ELSE Text(Deep(Depth, Diffb)))
    [] kind = "difff" ->
         IF i < Len(PoolE) THEN "diff f 0 0 " \o Text(PoolE[i + 1])
         ELSE IF i < 2 * Len(PoolE) THEN "diff v 1 0 " \o Text(PoolE[i + 1 - Len(PoolE)])
         ELSE (IF Pick(1..4) = 1 THEN "diff v " \o Num(Pick(0..3)) \o " 0 " ELSE "diff f " \o Num(Pick(0..1)) \o " " \o Num(Pick(0..1)) \o " ")
              \o (CASE Pick(1..6) = 1 -> Text(Deep(2, Symb))
                    [] OTHER -> Text(Deep(Depth, SymbD)))
    [] kind = "subst" ->
         IF i < SHR
         THEN LET q == i \div Len(Repls)
                  s == Searches[1 + (q % Len(Searches))]
                  r == Repls[1 + (i % Len(Repls))]
              IN "subst 1 " \o Text(s) \o " " \o Text(IF Fits(s, r) THEN r ELSE s) \o " " \o Text(Hosts[1 + (q \div Len(Searches))])
         ELSE CHOOSE z \in { SubstCall(t) : t \in {Deep(Depth, Pick({Scalar, Symb, [Symb EXCEPT !.lng = TRUE]}))} } : TRUE
    [] kind = "lsubst" ->  CHOOSE z \in {"subst " \o Num(c) \o " " \o List(c) \o Text(Hosts[1 + (i % Len(Hosts))]) : c \in {Pick(2..4)}} : TRUE
    [] kind = "eq" ->
         IF i < Sq(PoolE) THEN "eq " \o Text(Fst(PoolE, i)) \o " " \o Text(Snd(PoolE, i))
         ELSE CHOOSE z \in { "eq " \o PairText(t) : t \in {IF Pick(1..10) = 1 THEN VecOf(Pick(1..3), AllE) ELSE Deep(Depth, AllE)} } : TRUE
    [] kind = "eqtype" ->      \* constants of every arithmetic type against each other
         LET a == Typed(i % 4, <<"1", "2", "0">>[1 + ((i \div 16) % 3)])
             b == Typed((i \div 4) % 4, IF (i \div 48) % 2 = 0 THEN <<"1", "2", "0">>[1 + ((i \div 16) % 3)] ELSE Pick({"0", "1", "3"}))
             u == (i \div 96) % 2 = 1
         IN "eq " \o Text(IF u THEN Bin("+", X, a) ELSE a) \o " " \o Text(IF u THEN Bin("+", X, b) ELSE b)
    [] kind = "str" ->
         IF i < Sq(PoolE) THEN "str " \o Text(Subst(Fst(PoolE, i), <<CL("1")>>, <<C("4")>>)) \o " " \o Text(Subst(Snd(PoolE, i), <<CL("1")>>, <<C("4")>>))
         ELSE CHOOSE z \in { "str " \o PairText(t) : t \in {IF Pick(1..10) = 1 THEN VecOf(Pick(1..3), Symb) ELSE Deep(Depth, [AllE EXCEPT !.lng = FALSE])} } : TRUE
    [] kind = "print" ->
         IF i < Sq(PoolE)
         THEN "print " \o (CASE i % 3 = 0 -> "e 1 " \o TwoShown(Fst(PoolE, i), Snd(PoolE, i))
                           [] i % 3 = 1 -> "n 1 " \o TwoShown(Fst(PoolE, i), Snd(PoolE, i))
                           [] OTHER -> (IF i % 2 = 0 THEN "q 2 " ELSE "i 2 ") \o PoolText(i) \o " 2 " \o PoolText(i * 7 + 5))
         ELSE PrintCall(Pick(1..12))
    [] kind = "const" ->
         IF i < Len(PoolE) THEN "const " \o Text(PoolE[i + 1])
         ELSE "const " \o (CASE Pick(1..3) = 1 -> Text(Deep(Depth, AllE))
                            [] OTHER -> Text(Subst(Deep(Depth, [Ratio EXCEPT !.lng = TRUE]), <<Var(0), Var(1), Var(2)>>,
                                            <<C(Pick(Small)), C(Pick(Small)), IF Pick(1..4) = 1 THEN Tree(1, AllE) ELSE C("3")>>)))
    [] kind = "eval" ->
         IF i < 4 * Sq(PoolA) THEN LET q == i \div 4 IN "eval " \o Point(2) \o " " \o Text(Bin(OpSeq[1 + (i % 4)], Fst(PoolA, q), Snd(PoolA, q)))
         ELSE IF i < 4 * Sq(PoolA) + 9 * Len(PoolU)
         THEN LET q == i - 4 * Sq(PoolA) IN "eval " \o Point(2) \o " " \o Text(Un(FnSeq[1 + (q % 9)], PoolU[1 + (q \div 9)]))
         ELSE CASE Pick(1..4) = 1 -> "eval " \o Point(1) \o " " \o Text(Deep(Depth, [Wide EXCEPT !.nv = 1]))
                [] Pick(1..3) = 1 -> "eval " \o Point(2) \o " " \o Text(Deep(Depth, [Wide EXCEPT !.nv = 2]))
                [] Pick(1..2) = 1 -> "eval " \o Point(3) \o " " \o Text(Deep(Depth, [Wide EXCEPT !.nv = 3]))
                [] OTHER -> "eval " \o Point(6) \o " " \o Text(Deep(Depth, Wide))
    [] kind = "nsimp" -> "simp " \o Text(NumBin(i))
    [] kind = "nearsimp" -> "simp " \o Text(NearBin(i))
    [] kind = "nearsubst" -> "subst 1 v 2 c d " \o <<"1", "0", "3">>[1 + (i % 3)] \o " " \o Text(NearBin(i \div 2))
    [] kind = "nearconst" -> "const " \o Text(NearBin(i))
    [] kind = "neardiff" -> IF (i \div 24) % 4 = 3 THEN "diff v 0 0 " \o Text(NearBin((i + 24) % 384)) ELSE "diff v 0 0 " \o Text(NearBin(i))
    [] kind = "ideq" -> "eq " \o NumPair(i)
    [] kind = "idstr" -> "str " \o NumPair(i)
    [] kind = "idlatex" -> "latex 0 " \o NumPair(IF i % 9 = 8 THEN i - 8 ELSE i)
    [] kind = "idsubst" -> NumBoth(i, "subst")
    [] kind = "iddiffv" -> NumBoth(2 * i, "diff")
    [] kind = "iddifff" -> NumBoth(2 * i + 1, "diff")
    [] kind = "idsimp" -> NumBoth(i, "simp ")
    [] kind = "veq" -> "eq " \o LongVecs(i)
    [] kind = "vstr" -> "str " \o LongVecs(i)
    [] kind = "neval" -> "eval " \o Point(2) \o " " \o Text(NumBin(i))
    [] kind = "ndiff" -> "diff v 0 0 " \o Text(IF i % 2 = 0 THEN NumBin(i) ELSE Bin("*", NumBin(i), X))
    [] kind = "nconst" -> "const " \o Text(NumBin(i))
    [] kind = "nsubst" -> "subst 1 " \o (IF i % 2 = 0 THEN "v 0 " \o Text(PoolN[1 + (i % Len(PoolN))]) \o " " \o Text(Bin(OpSeq[1 + ((i \div 2) % 4)], X, Y))
                                        ELSE Pick({"c d 1 ", "c d 0 ", "c d 2 "}) \o "v 2 " \o Text(NumBin(i)))
    [] kind = "neq" -> "eq " \o Text(IF i % 3 = 0 THEN NumBin(i) ELSE PoolN[1 + (i % Len(PoolN))]) \o " "
                       \o Text(IF i % 3 = 0 THEN NumBin(Pick({i, (i + 1) % NN})) ELSE (PoolN \o <<C("0"), C("1"), C("-3"), CL("0"), C("0.10000000000000002"), CL("1"), C("4294967296")>>)[1 + ((i \div Len(PoolN)) % (Len(PoolN) + 7))])
    [] kind = "hilatex" -> "latex 0 " \o Text(High(Deep(Depth, [Symb EXCEPT !.nv = 4]))) \o " " \o Text(High(Deep(1, Symb)))
    [] kind = "histr" -> CHOOSE z \in { CASE Pick(1..3) = 1 -> "str " \o Text(High(t)) \o " " \o Text(t)
                                           [] OTHER -> "str " \o Text(High(t)) \o " " \o Text(High(Mutate(t, Pick(1..100)))) : t \in {Deep(2, [AllE EXCEPT !.lng = FALSE])} } : TRUE
    [] kind = "hieq" -> CHOOSE z \in { "eq " \o Text(High(t)) \o " " \o Text(High(IF Pick(1..3) = 1 THEN t ELSE Mutate(t, Pick(1..100)))) : t \in {Deep(2, AllE)} } : TRUE
    [] kind = "evalx" ->
         "eval " \o Point(Pick({0, 1, 1, 2, 3, 4})) \o " " \o
           (CASE Pick(1..4) = 1 -> Text(Deep(2, AllE))
              [] Pick(1..3) = 1 -> Text(Deep(1, [Wide EXCEPT !.nv = 5, !.ns = 1, !.sy = Symbolic]))
              [] OTHER -> Text(Deep(Depth, Wide)))
    [] kind = "trav" -> Pick({"trav ", "mani "}) \o Pick(Sets) \o " " \o Text(Deep(Depth, AllE))
    [] kind = "latex" -> CHOOSE z \in { "latex " \o Num(c) \o Customs(c) \o " " \o Text(Deep(Depth, [Symb EXCEPT !.nv = 4, !.lng = TRUE])) \o " " \o Text(Deep(2, Symb)) : c \in {Pick(0..3)} } : TRUE
    [] kind = "manylatex" -> CHOOSE z \in { "latex 16" \o ManyCustoms(0, a, m, b) \o " " \o Text(Deep(Depth, [Symb EXCEPT !.nv = 8, !.ns = 2])) \o " " \o Text(Deep(2, [Symb EXCEPT !.ns = 2]))
                              : a \in {Pick(0..15)}, m \in {Pick({1, 3, 5, 7, 9, 11, 13, 15})}, b \in {Pick(0..15)} } : TRUE
    [] kind = "latexh" -> CHOOSE z \in { "latexh " \o Num(c) \o TrActs(c) : c \in {RandomElement(6..16)} } : TRUE
    [] kind = "quad" ->
         IF Pick(1..3) = 1
         THEN CHOOSE z \in { "quad3 " \o Text(Bound(0)) \o " " \o Text(Bound(0)) \o " " \o Num(v) \o " " \o Text(OneVar(v, 3)) : v \in {Pick(0..3)} } : TRUE
         ELSE "quad " \o Text(Integrals(Depth, Pick(1..100)))
    [] kind = "coord" -> CHOOSE z \in {"coord " \o Num(Pick(1..3)) \o " " \o Text(t) \o " " \o Text(IF Pick(1..6) = 1 THEN t ELSE WF(0)) : t \in {WF(0)}} : TRUE
    (* the same or nearly the same operand twice *)
    [] kind = "dsimp" -> CHOOSE z \in {"simp " \o Text(Bin(Pick(Arith), t, IF Pick(1..2) = 1 THEN t ELSE Twins(t))) : t \in {Deep(2, Pick({Scalar, Symb, Ratio}))}} : TRUE
    [] kind = "deval" -> CHOOSE z \in {"eval " \o Point(3) \o " " \o Text(Bin(Pick(Arith), t, IF Pick(1..2) = 1 THEN t ELSE Twins(t))) : t \in {Deep(2, [Wide EXCEPT !.nv = 3])}} : TRUE
    [] kind = "ddiff" -> CHOOSE z \in {"diff v " \o Num(Pick(0..1)) \o " 0 " \o Text(Bin(Pick(Arith), t, IF Pick(1..2) = 1 THEN t ELSE Twins(t))) : t \in {Deep(2, Diffb)}} : TRUE
    [] kind = "dconst" -> CHOOSE z \in {"const " \o Text(Bin(Pick(Arith), t, IF Pick(1..2) = 1 THEN t ELSE Twins(t))) : t \in {Deep(2, AllE)}} : TRUE
    [] kind = "dtrav" -> CHOOSE z \in {Pick({"trav ", "mani "}) \o Pick(Sets) \o " " \o Text(Bin(Pick(Arith), t, IF Pick(1..2) = 1 THEN t ELSE Twins(t))) : t \in {Deep(2, AllE)}} : TRUE
    [] kind = "dlatex" -> CHOOSE z \in {"latex 0 " \o Text(Bin(Pick(Arith), t, t)) \o " " \o Text(t) : t \in {Deep(2, [Symb EXCEPT !.nv = 4])}} : TRUE
    (* looking for what only looks alike *)
    [] kind = "dsubst" -> CHOOSE z \in {"subst 1 " \o Text(Twins(SubTree(t, Pick({0, 30})))) \o " " \o Text(Tree(1, Scalar)) \o " " \o Text(Bin(Pick(Arith), t, Twins(t))) : t \in {Deep(2, Pick({Scalar, Symb}))}} : TRUE
    [] kind = "dquad" -> CHOOSE z \in {"quad " \o Text(Bin(Pick({"+", "-"}), t, IF Pick(1..2) = 1 THEN t ELSE Twins(t))) : t \in {Integrals(2, Pick(1..100))}} : TRUE
    [] kind = "vec" ->
         CHOOSE z \in { "vec " \o Text(VecOf(d, Symb)) \o " " \o Text(VecOf(d, Symb)) \o " " \o Text(Tree(Pick(0..2), Symb)) : d \in {Pick(1..4)} } : TRUE
    [] kind = "vecsub" ->      \* symbols replaced by vectors; vectors differentiated
         IF Pick(1..3) = 1 THEN "diff v " \o Num(Pick(0..2)) \o " 0 " \o Text(VecOf(Pick(1..4), Diffb))
         ELSE CHOOSE z \in { "subst 2 f 0 0 " \o Text(VecOf(d, Scalar)) \o " f 0 1 " \o Text(VecOf(d, Scalar)) \o " "
                \o Text(Bin(Pick({"+", "-", "*"}), Tree(1, Ratio), Bin("*", Fs(0, 0), Pick({Fs(0, 1), Fs(0, 0), Bin("+", Fs(0, 0), Fs(0, 1)), Bin("*", C("2"), Fs(0, 1))})))) : d \in {Pick(1..4)} } : TRUE
    [] kind = "subint" -> "subint " \o Num(Pick(0..1)) \o " " \o Text(Tree(1, Poly)) \o " " \o Text(Tree(1, Poly)) \o " " \o Num(Pick(0..3)) \o " " \o Text(Deep(Depth, SymInt))
    (* the same calls with operands of unusual size *)
    [] kind = "xsimp" -> "simp " \o
         (CASE Pick(1..4) = 1 -> Text([Deep(3, Scalar) EXCEPT !.a = Bin(Pick(Arith), X, C(Pick(Extremes)))])
            [] Pick(1..3) = 1 -> Text(Bin(Pick(Arith), C(Pick(Extremes)), Pick({X, C("1"), C("2"), Bin("*", C("2"), Y), Bin("+", C("1"), X)})))
            [] OTHER -> Text(Long(8, 30, Pick({Scalar, Symb, Ratio, [Poly EXCEPT !.lng = TRUE]}))))
    [] kind = "hugeeq" ->       \* names that agree in their low 32 bits
         CHOOSE z \in { IF i % 2 = 0 THEN "eq " \o Text(t) \o " " \o Text(Far(t, Huge)) ELSE "eq " \o Text(Far(t, Huge)) \o " " \o Text(t)
                       : t \in {IF Pick(1..3) = 1 THEN Pick({X, Y, Fs(0, 0), Fs(1, 1), Fs(0, 1), UnP("pd", <<1>>, <<>>, Fs(0, 0)), UnP("sint", <<1>>, <<>>, X), UnP("int", <<0>>, <<C("0"), X>>, Y)}) ELSE Deep(3, AllE)} } : TRUE
    [] kind = "hugesub" ->
         CHOOSE z \in { CASE i % 4 = 0 -> "subst 1 " \o Text(Far(Pick({X, Y, Fs(0, 0), Fs(1, 1)}), Huge)) \o " " \o Text(C("3")) \o " " \o Text(Bin("+", t, Far(t, Huge)))
                         [] i % 4 = 1 -> "subst 1 " \o Text(Pick({X, Y, Fs(0, 0), Fs(1, 1)})) \o " " \o Text(C("3")) \o " " \o Text(Bin("*", Far(t, Huge), t))
                         [] i % 4 = 2 -> "subst 2 " \o Text(X) \o " " \o Text(C("3")) \o " " \o Text(Far(X, Huge)) \o " " \o Text(Y) \o " " \o Text(Bin("*", Far(t, Huge), t))
                         [] OTHER -> "subst 1 " \o Text(Far(t, Huge)) \o " " \o Text(C("3")) \o " " \o Text(Bin("*", t, t))
                       : t \in {IF Pick(1..3) = 1 THEN Pick({X, Y, Fs(0, 0), Fs(1, 1), Fs(0, 1), UnP("pd", <<1>>, <<>>, Fs(0, 0)), UnP("sint", <<1>>, <<>>, X), UnP("int", <<0>>, <<C("0"), X>>, Y)}) ELSE Deep(3, AllE)} } : TRUE
    [] kind = "hugestr" -> CHOOSE z \in { "str " \o Text(t) \o " " \o Text(Far(t, Huge))
                       : t \in {IF Pick(1..3) = 1 THEN Pick({X, Y, Fs(0, 0), Fs(1, 1), Fs(0, 1), UnP("pd", <<1>>, <<>>, Fs(0, 0)), UnP("sint", <<1>>, <<>>, X), UnP("int", <<0>>, <<C("0"), X>>, Y)}) ELSE Deep(3, PrintPf)} } : TRUE
    [] kind = "hugediffv" -> CHOOSE z \in { "diff v " \o Num(Pick(0..1) + Pick({0, Huge})) \o " 0 " \o Text(Bin("*", t, Far(t, Huge))) : t \in {Deep(2, Diffb)} } : TRUE
    [] kind = "hugedifff" -> CHOOSE z \in { "diff f " \o Num(Pick(0..1) + Pick({0, Huge})) \o " " \o Num(Pick(Tags)) \o " " \o Text(Bin("+", t, Far(t, Huge))) : t \in {Deep(2, SymbD)} } : TRUE
    [] kind = "tallsimp" -> "simp " \o Text(IF i % 2 = 0 THEN TallTree(TRUE) ELSE Rounds(Pick(4..40)))
    [] kind = "talldiff" -> "diff v " \o Num(Pick(0..1)) \o " 0 " \o Text(TallTree(TRUE))
    [] kind = "tallsubst" -> "subst 1 " \o Text(Pick({X, Y})) \o " " \o Text(Pick({C("3"), Bin("*", Y, C("2"))})) \o " " \o Text(TallTree(TRUE))
    [] kind = "biglist" -> CHOOSE z \in { "subst " \o Num(c) \o " " \o BigPairs(0, c, Pick(0..(c - 1)), Pick({1, 3, 5, 7})) \o Text(BigHost(6, c)) : c \in {Pick({16, 32})} } : TRUE
    [] kind = "tallconst" -> "const " \o Text(IF i % 2 = 0 THEN Subst(TallTree(FALSE), <<Var(0), Var(1), Var(2)>>, <<C("2"), C("3"), C("-1")>>) ELSE TallTree(FALSE))
    [] kind = "tallstr" -> CHOOSE z \in {"str " \o Text(t) \o " " \o Text(IF i % 3 = 0 THEN t ELSE Mutate(t, Pick(36..100))) : t \in {TallTree(TRUE)}} : TRUE
    [] kind = "talleq" -> CHOOSE z \in {"eq " \o Text(t) \o " " \o Text(IF i % 3 = 0 THEN t ELSE Mutate(t, Pick(36..100))) : t \in {TallTree(TRUE)}} : TRUE
    [] kind = "bigveceq" -> "eq " \o BigVecs(i)
    [] kind = "bigvecstr" -> "str " \o BigVecs(i)
    [] kind = "bigvec" -> CHOOSE z \in {"vec " \o Text(BigVec(m, 1)) \o " " \o Text(BigVec(m, Pick(2..3))) \o " " \o Text(Pick({X, C("2"), Un("sin", X)})) : m \in {BigLen(0)}} : TRUE
    [] kind = "bigvecsub" -> IF i % 2 = 0 THEN "diff v " \o Num(Pick(0..2)) \o " 0 " \o Text(BigVec(BigLen(0), 1))
                             ELSE CHOOSE z \in {"subst 2 f 0 0 " \o Text(BigVec(m, 1)) \o " v 1 c d 3 " \o Text(Bin("*", Fs(0, 0), BigVec(m, 2))) : m \in {BigLen(0)}} : TRUE
    [] kind = "talllatex" -> "latex 0 " \o Text(TallTree(FALSE)) \o " " \o Text(X)
    [] kind = "tallprint" -> CHOOSE z \in {"print " \o Pick({"e 1 ", "n 1 "}) \o TwoShown(t, IF i % 3 = 0 THEN t ELSE Mutate(t, Pick(36..100)))
                                  : t \in {IF i % 2 = 0 THEN TallTree(TRUE) ELSE BigVec(BigLen(0), 1)}} : TRUE
    [] kind = "talltrav" -> Pick({"trav ", "mani "}) \o Pick(Sets) \o " " \o Text(TallTree(TRUE))
    [] kind = "bigeval" -> CHOOSE z \in {"eval " \o Point(d) \o " " \o Text(Spread(Deep(3, [Wide EXCEPT !.nv = 3]), d)) : d \in {Pick({33, 65, 129, 257, 300})}} : TRUE
    [] kind = "bigevalx" -> CHOOSE z \in {"eval " \o Point(d) \o " " \o Text(Spread(Deep(2, [Wide EXCEPT !.nv = 3]), IF i % 2 = 0 THEN d ELSE d + 2)) : d \in {Pick({33, 64, 128, 256})}} : TRUE
    [] kind = "talleval" -> "eval " \o Point(3) \o " " \o Text(TallTree(TRUE))
    [] kind = "xdiff" -> CHOOSE z \in { "diff v " \o Num(o + Pick(0..2)) \o " 0 " \o Text(Far(Long(6, 20, Diffb), o)) : o \in {Pick(HugeOff)} } : TRUE
    [] kind = "xdifff" -> CHOOSE z \in { "diff f " \o Num(o + Pick(0..1)) \o " " \o Num(Pick(Tags)) \o " " \o Text(Far(Long(2, 14, SymbD), o)) : o \in {Pick(HugeOff)} } : TRUE
    [] kind = "xeval" -> "eval " \o Point(20) \o " " \o Text(Far(Long(4, 30, [Wide EXCEPT !.nv = 6]), Pick({0, 7, 13, 14})))
    [] kind = "xevalx" -> "eval " \o Point(Pick(8..16)) \o " " \o Text(Far(Long(4, 20, [Wide EXCEPT !.nv = 3]), Pick({0, 7, 9, 13, 250, 65536, Huge, Huge})))
    [] kind = "xsubst" -> CHOOSE z \in { "subst " \o Num(c) \o " " \o Pairs(c, t) \o Text(t) : c \in {Pick({1, 4, 6, 9})}, t \in {Far(Long(5, 20, Pick({Scalar, Symb})), Pick(HugeOff))} } : TRUE
    [] kind = "xeq" -> CHOOSE z \in { "eq " \o Text(t) \o " " \o Text(CASE Pick(1..3) = 1 -> t [] Pick(1..3) = 1 -> Twins(t) [] OTHER -> Mutate(t, Pick(31..100))) : t \in {Far(Long(5, 25, AllE), Pick(HugeOff))} } : TRUE
    [] kind = "xstr" -> CHOOSE z \in { "str " \o Text(t) \o " " \o Text(IF Pick(1..3) = 1 THEN t ELSE Mutate(t, Pick(31..100))) : t \in {Far(Long(5, 25, [AllE EXCEPT !.lng = FALSE]), Pick(HugeOff))} } : TRUE
    [] kind = "xconst" -> "const " \o Text(IF Pick(1..3) = 1 THEN Long(8, 30, [Ratio EXCEPT !.lng = TRUE])
                            ELSE Subst(Long(8, 30, [Ratio EXCEPT !.lng = TRUE]), <<Var(0), Var(1), Var(2)>>, <<C(Pick(Small \cup Extremes)), C(Pick(Small)), C(Pick(Extremes))>>))
    [] kind = "xtrav" -> Pick({"trav ", "mani "}) \o Pick(Sets) \o " " \o Text(Far(Long(6, 30, AllE), Pick(HugeOff)))
    [] kind = "xlatex" -> "latex 0 " \o Text(Far(Long(5, 20, [Symb EXCEPT !.nv = 4]), Pick(Offsets))) \o " " \o Text(Long(3, 8, Symb))
    [] kind = "xquad" -> "quad " \o Text(IChain(Pick(3..12)))
    [] kind = "xcoord" -> "coord " \o Num(Pick(1..3)) \o " " \o Text(WeakForm(6, 100)) \o " " \o Text(Bin("+", WF(0), WF(0)))
    [] kind = "xvec" ->
         CHOOSE z \in { "vec " \o Text(VecOf(d, Symb)) \o " " \o Text(VecOf(d, Symb)) \o " " \o Text(Tree(Pick(0..2), Symb)) : d \in {Pick(5..12)} } : TRUE
    [] kind = "xsubint" -> "subint " \o Num(Pick(0..1)) \o " " \o Text(Long(2, 8, Poly)) \o " " \o Text(Tree(1, Poly)) \o " " \o Num(Pick({0, 9, 250, 65536})) \o " " \o Text(Long(4, 16, SymInt))
    [] OTHER -> "?"

Init == n = Skip
Next == /\ n < Skip + Count
        /\ n' = n + 1
        /\ \E s \in {Call(Kind, n)} : PrintT("GEN " \o s)
=============================================================================
