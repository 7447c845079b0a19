------------------------------- MODULE Latex --------------------------------
(***************************************************************************)
(* Reading LaTeX: the grammar of formulas with the usual precedence rules. *)
(* A text arrives as a sequence of tokens [t |-> kind, s |-> text, n |-> ..] *)
(* Parsing gives <<tree, next position>>; NoTree marks failure.            *)
(***************************************************************************)
EXTENDS Sem, TLC

NoTree == [k |-> "n"]
Fail == <<NoTree, 0>>
(* cs: customizations [n |-> symbol, s |-> name], the last one counts *)
DefaultName(n) == IF n.k = "v" THEN "x_{" \o ToString(n.i) \o "}"
                  ELSE IF n.g = 1 THEN "v_{" \o ToString(n.i) \o "}" ELSE "u_{" \o ToString(n.i) \o "}"
RECURSIVE NameFrom(_, _, _)
NameFrom(n, cs, j) == IF j = 0 THEN DefaultName(n)
                      ELSE IF Same(cs[j].n, n) THEN cs[j].s ELSE NameFrom(n, cs, j - 1)
NameOf(n, cs) == NameFrom(n, cs, Len(cs))
Ids == (0..13) \cup UNION {o..(o + 3) : o \in {60, 127, 250, 32760, 65530, 70000}}
       \cup UNION {{d, d + 1} : d \in {16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 100, 1000}}
Atoms == {Var(i) : i \in Ids} \cup {Fs(i, g) : i \in Ids, g \in {0, 1}}
Defaults == [s \in {DefaultName(a) : a \in Atoms} |-> CHOOSE a \in Atoms : DefaultName(a) = s]
(* the symbol a name stands for *)
Candidates(s, cs) == {a \in {cs[j].n : j \in 1..Len(cs)} : NameOf(a, cs) = s}
                     \cup (IF s \in DOMAIN Defaults /\ NameOf(Defaults[s], cs) = s THEN {Defaults[s]} ELSE {})
Named(s, cs) == LET c == Candidates(s, cs) IN IF c = {} THEN NoTree ELSE CHOOSE a \in c : TRUE
Ambiguous(cs) == \E j \in 1..Len(cs) : Cardinality(Candidates(NameOf(cs[j].n, cs), cs)) > 1

FunName == [exp |-> "exp", sin |-> "sin", cos |-> "cos", tan |-> "tan", ln |-> "log", log |-> "log10"]
At(ts, p) == IF p >= 1 /\ p <= Len(ts) THEN ts[p].t ELSE "end"
Good(r) == r[2] > 0
RECURSIVE PExpr(_, _, _), PSum(_, _, _), PTerm(_, _, _), PProd(_, _, _), PUnit(_, _, _), PClosed(_, _, _, _)
PExpr(ts, p, cs) == LET r == PTerm(ts, p, cs) IN IF Good(r) THEN PSum(ts, r, cs) ELSE Fail
PSum(ts, l, cs) ==
  IF At(ts, l[2]) \in {"+", "-"}
  THEN LET r == PTerm(ts, l[2] + 1, cs)
       IN IF Good(r) THEN PSum(ts, <<Bin(At(ts, l[2]), l[1], r[1]), r[2]>>, cs) ELSE Fail
  ELSE l
PTerm(ts, p, cs) == LET r == PUnit(ts, p, cs) IN IF Good(r) THEN PProd(ts, r, cs) ELSE Fail
PProd(ts, l, cs) ==
  IF At(ts, l[2]) = "cdot"
  THEN LET r == PUnit(ts, l[2] + 1, cs)
       IN IF Good(r) THEN PProd(ts, <<Bin("*", l[1], r[1]), r[2]>>, cs) ELSE Fail
  ELSE l
(* an expression up to the closing token c *)
PClosed(ts, p, c, cs) == LET r == PExpr(ts, p, cs) IN IF Good(r) /\ At(ts, r[2]) = c THEN <<r[1], r[2] + 1>> ELSE Fail
PUnit(ts, p, cs) ==
  CASE At(ts, p) = "num" -> <<ts[p].n, p + 1>>
    [] At(ts, p) = "name" -> LET a == Named(ts[p].s, cs) IN IF a.k = "n" THEN Fail ELSE <<a, p + 1>>
    [] At(ts, p) = "(" -> PClosed(ts, p + 1, ")", cs)
    [] At(ts, p) = "left(" -> PClosed(ts, p + 1, "right)", cs)
    [] At(ts, p) = "left|" -> LET r == PClosed(ts, p + 1, "right|", cs) IN IF Good(r) THEN <<Un("fabs", r[1]), r[2]>> ELSE Fail
    [] At(ts, p) = "sqrt" /\ At(ts, p + 1) = "{" -> LET r == PClosed(ts, p + 2, "}", cs) IN IF Good(r) THEN <<Un("sqrt", r[1]), r[2]>> ELSE Fail
    [] At(ts, p) = "fun" -> LET r == PUnit(ts, p + 1, cs) IN IF Good(r) THEN <<Un(FunName[ts[p].s], r[1]), r[2]>> ELSE Fail
    [] At(ts, p) = "nabla" /\ At(ts, p + 1) = "cdot" -> LET r == PUnit(ts, p + 2, cs) IN IF Good(r) THEN <<Un("div", r[1]), r[2]>> ELSE Fail
    [] At(ts, p) = "nabla" -> LET r == PUnit(ts, p + 1, cs) IN IF Good(r) THEN <<Un("grad", r[1]), r[2]>> ELSE Fail
    [] At(ts, p) = "frac" /\ At(ts, p + 1) = "{" /\ At(ts, p + 2) = "partial" ->
         LET r == PUnit(ts, p + 3, cs) IN
         IF Good(r) /\ At(ts, r[2]) = "}" /\ At(ts, r[2] + 1) = "{" /\ At(ts, r[2] + 2) = "partial"
         THEN LET v == PUnit(ts, r[2] + 3, cs)
              IN IF Good(v) /\ v[1].k = "v" /\ At(ts, v[2]) = "}" THEN <<Pd(r[1], v[1].i), v[2] + 1>> ELSE Fail
         ELSE Fail
    [] At(ts, p) = "frac" /\ At(ts, p + 1) = "{" ->
         LET r == PClosed(ts, p + 2, "}", cs) IN
         IF Good(r) /\ At(ts, r[2]) = "{"
         THEN LET q == PClosed(ts, r[2] + 1, "}", cs) IN IF Good(q) THEN <<Bin("/", r[1], q[1]), q[2]>> ELSE Fail
         ELSE Fail
    [] At(ts, p) = "sint" ->
         LET r == PClosed(ts, p + 1, "d", cs)
         IN IF Good(r) /\ At(ts, r[2]) = "omega" THEN <<[k |-> "u", o |-> "sint", p |-> <<ts[p].i>>, x |-> <<>>, a |-> r[1]], r[2] + 1>> ELSE Fail
    [] At(ts, p) = "int" /\ At(ts, p + 1) = "[" ->
         LET lo == PClosed(ts, p + 2, ";", cs) IN
         IF ~Good(lo) THEN Fail
         ELSE LET hi == PClosed(ts, lo[2], "]", cs) IN
              IF ~(Good(hi) /\ At(ts, hi[2]) = "}") THEN Fail
              ELSE LET r == PClosed(ts, hi[2] + 1, "d", cs) IN
                   IF ~Good(r) THEN Fail
                   ELSE LET v == PUnit(ts, r[2], cs)
                        IN IF Good(v) /\ v[1].k = "v"
                           THEN <<[k |-> "u", o |-> "int", p |-> <<v[1].i>>, x |-> <<lo[1], hi[1]>>, a |-> r[1]], v[2]>> ELSE Fail
    [] OTHER -> Fail

(* the formula a whole text stands for *)
Whole(ts, cs) == LET r == PExpr(ts, 1, cs) IN IF Good(r) /\ r[2] = Len(ts) + 1 THEN r[1] ELSE NoTree
WholeUnit(ts, cs) == LET r == PUnit(ts, 1, cs) IN IF Good(r) /\ r[2] = Len(ts) + 1 THEN r[1] ELSE NoTree
Reads(ts, cs, e) == LET t == Whole(ts, cs) IN t.k # "n" /\ SameValue(e, t)
(* two formulas with open and sep and close around them *)
ReadsTwo(ts, open, sep, close, cs, a, b) ==
  \E j \in 1..Len(ts) :
     /\ ts[j].t = sep
     /\ open = "" \/ ts[1].t = open
     /\ close = "" \/ ts[Len(ts)].t = close
     /\ Reads(SubSeq(ts, IF open = "" THEN 1 ELSE 2, j - 1), cs, a)
     /\ Reads(SubSeq(ts, j + 1, IF close = "" THEN Len(ts) ELSE Len(ts) - 1), cs, b)
=============================================================================
