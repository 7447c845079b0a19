------------------------------- MODULE GenWs -------------------------------
(***************************************************************************)
(* The client of Workspace.tla: which command comes next.  sz bounds the   *)
(* size of what every object holds (0: no object), ln the length of the    *)
(* vectors, vc the objects that may hold a vector somewhere.               *)
(***************************************************************************)
EXTENDS Gen
Steps == atoi(IOEnv.GEN_STEPS)
VARIABLES j, sz, ln, vc
Objs == <<"e0", "e1", "e2", "e3", "u0", "u1", "b0", "b1", "v0", "v1", "c0", "c1", "f0", "w0", "w1", "q0", "q1", "i0", "i1">>
Rng1(s) == {s[i] : i \in 1..Len(s)}
Es4 == {"e0", "e1", "e2", "e3"}
Us == {"u0", "u1"}  Bs == {"b0", "b1"}  Vs == {"v0", "v1"}  Cs == {"c0", "c1"}  Ws == {"w0", "w1"}  Qs == {"q0", "q1"}  Is == {"i0", "i1"}
Scal == Es4 \cup Us \cup Bs \cup Vs \cup Cs \cup {"f0"}
Full(S) == {s \in S : sz[s] > 0}
Lim == 36
Prof == [Symb EXCEPT !.nv = 2, !.ns = 2, !.sy = {"grad", "pd", "sint"}]
Pure(S) == {s \in Full(S) : s \notin vc}
(* a fresh object *)
FreshTrees(s, r) ==
  CASE s \in Es4 -> <<IF r <= 12 THEN Vec(<<Tree(1, Prof), Tree(1, Prof)>>) ELSE IF r >= 95 THEN Far(Tree(2, Prof), Huge) ELSE Tree(2, Prof)>>
    [] s \in Us -> <<IF r <= 20 THEN UnP("sint", <<Pick(0..1)>>, <<>>, Tree(1, Prof)) ELSE IF r <= 35 THEN UnP("int", <<Pick(0..1)>>, <<Tree(1, Prof), Tree(1, Prof)>>, Tree(1, Prof)) ELSE Un(Pick(Funcs), Tree(2, Prof))>>
    [] s \in Bs -> <<Bin(Pick(Arith), Tree(2, Prof), Tree(1, Prof))>>
    [] s \in Vs -> <<Var(Pick(0..1) + (IF r >= 92 THEN Huge ELSE 0))>>
    [] s \in Cs -> <<C(Pick(Small))>>
    [] s = "f0" -> <<Fs(Pick(0..1) + (IF r >= 92 THEN Huge ELSE 0), Pick({0, 1}))>>
    [] s \in Ws -> <<Vec(<<Tree(1, Prof), Tree(1, Prof)>>)>>
    [] OTHER -> <<Tree(1, Prof), Tree(1, Prof)>>
RECURSIVE Joined(_)
Joined(q) == IF Len(q) = 1 THEN Text(q[1]) ELSE Text(q[1]) \o " " \o Joined(Tail(q))
FreshText(s, r) == CHOOSE z \in {Joined(q) : q \in {FreshTrees(s, r)}} : TRUE
(* a first value and one that is easily taken for it *)
Close(q, r) == [m \in 1..Len(q) |-> CASE r <= 60 -> Twins(q[m])
                                     [] r <= 75 /\ q[m].k = "b" -> Swap(q[m])
                                     [] r <= 85 /\ q[m].k = "u" -> [q[m] EXCEPT !.a = Tree(1, Prof)]
                                     [] r <= 85 /\ q[m].k = "b" -> [q[m] EXCEPT !.b = Tree(1, Prof)]
                                     [] r <= 85 /\ q[m].k = "f" -> Fs(q[m].i, 1 - q[m].g)
                                     [] OTHER -> q[m]]
DuoText(s, r) == CHOOSE z \in {Joined(q) \o " " \o Joined(Close(q, Pick(1..100))) : q \in {FreshTrees(s, r)}} : TRUE
(* result: command text, target, its size, its length, does it hold a vector *)
R(t, x, m, l, v) == [t |-> t, x |-> x, n |-> m, l |-> l, v |-> v]
Look(t) == R(t, "", 0, 0, FALSE)
Fresh(s) == CHOOSE z \in {R("set " \o s \o " " \o FreshText(s, r), s, 8, 2, s \in Ws \cup Qs \cup Is \/ (s \in Es4 /\ r <= 12)) : r \in {Pick(1..100)}} : TRUE
Classes == <<Es4, Us, Bs, Vs, Cs, {"f0"}, Ws, Qs, Is>>
Same1 == {<<x, y>> \in Rng1(Objs) \X Rng1(Objs) : \E m \in 1..Len(Classes) : x \in Classes[m] /\ y \in Classes[m]}
Copies == {<<x, y>> \in Same1 : sz[y] > 0} \cup {<<x, y>> \in Es4 \X (Scal \cup Ws) : sz[y] > 0} \cup {<<x, y>> \in (Us \cup Bs) \X Cs : sz[x] > 0 /\ sz[y] > 0}
Some(S) == S # {}
OneOf(S, f(_), else) == IF S = {} THEN else ELSE CHOOSE z \in {f(q) : q \in {Pick(S)}} : TRUE
TwoOf(S, T, f(_, _), else) == IF S = {} \/ T = {} THEN else ELSE CHOOSE z \in {f(q, p) : q \in {Pick(S)}, p \in {Pick(T)}} : TRUE
ThreeOf(S, T, U, f(_, _, _), else) == IF S = {} \/ T = {} \/ U = {} THEN else ELSE CHOOSE z \in {f(q, p, r) : q \in {Pick(S)}, p \in {Pick(T)}, r \in {Pick(U)}} : TRUE
OpTgt == Es4 \cup Full(Bs)
Nm(k) == ToString(k)
Vec1(s) == s \in vc
Dice(r, r2, f) ==
  CASE r <= 8 -> f
    [] r <= 10 -> CHOOSE z \in {R("duo " \o x \o " " \o Nm(Pick(0..1)) \o " " \o DuoText(x, r2), x, 8, 2, x \in Ws \cup Qs \cup Is \/ (x \in Es4 /\ r2 <= 12)) : x \in {Pick(Rng1(Objs))}} : TRUE
    [] r <= 22 -> OneOf(Copies, LAMBDA p : R("cp " \o p[1] \o " " \o p[2], p[1], sz[p[2]] + 2, ln[p[2]], Vec1(p[2])), f)
    [] r <= 27 -> OneOf({p \in Copies : p[1] \notin Us \cup Bs \/ <<p[1], p[2]>> \in Same1}, LAMBDA p : R("cc " \o p[1] \o " " \o p[2], p[1], sz[p[2]], ln[p[2]], Vec1(p[2])), f)
    [] r <= 42 -> ThreeOf(OpTgt, Full(Scal), Full(Scal), LAMBDA x, y, z : IF x \in Bs /\ {y, z} \cap Cs # {} THEN f ELSE R("op " \o x \o " " \o Pick({"+", "-", "*", "/"}) \o " " \o y \o " " \o z, x, sz[y] + sz[z] + 1, 0, Vec1(y) \/ Vec1(z)), f)
    [] r <= 45 -> TwoOf(Es4, Full(Scal), LAMBDA x, y : R(Pick({"opn ", "nop "}) \o x \o " " \o Pick({"+", "-", "*"}) \o " " \o y \o " " \o Pick(Small), x, sz[y] + 2, 0, Vec1(y)), f)
    [] r <= 49 -> TwoOf(Es4 \cup Full(Us), Full(Scal \ {"f0"}), LAMBDA x, y : R("fn " \o x \o " " \o Pick(Funcs \ {"id"}) \o " " \o y, x, sz[y] + 1, 0, Vec1(y)), f)
    [] r <= 56 -> IF r2 <= 60 THEN OneOf(Full(Es4 \cup Us \cup Bs), LAMBDA x : R("child " \o x \o " " \o x \o " " \o Nm(Pick(0..1)), x, sz[x], 0, Vec1(x)), f)
                  ELSE TwoOf(Full(Es4 \cup Us \cup Bs), Full(Es4 \cup Us \cup Bs), LAMBDA x, y : R("child " \o x \o " " \o y \o " " \o Nm(Pick(0..1)), x, sz[y], 0, Vec1(y)), f)
    [] r <= 64 -> ThreeOf(Es4, Full(Es4 \cup Us \cup Bs \cup Vs), Full(Vs \cup {"f0"}), LAMBDA x, y, z : IF sz[y] > 9 THEN f ELSE R("diff " \o x \o " " \o y \o " " \o z, x, 4 * sz[y], 0, Vec1(y)), f)
    [] r <= 67 -> TwoOf(Es4, Full(Es4 \cup Us \cup Bs), LAMBDA x, y : R("simp " \o x \o " " \o y, x, sz[y], 0, Vec1(y)), f)
    [] r <= 71 -> OneOf(Full(Es4), LAMBDA x : R("isimp " \o x, x, sz[x], 0, Vec1(x)), f)
    [] r <= 75 -> (CASE r2 <= 40 -> ThreeOf(Full(Es4), Full(Es4), Full(Es4), LAMBDA a, b, y : R("subst " \o Pick(Es4) \o " " \o a \o " " \o b \o " " \o y, "?", sz[y] + 2 * sz[b], 0, Vec1(b) \/ Vec1(y)), f)
                     [] r2 <= 55 -> ThreeOf(Full(Us \cup Bs \cup Vs \cup {"f0"}), Full(Es4), Full(Es4), LAMBDA a, b, y : R("subv " \o Pick(Es4) \o " " \o a \o " " \o b \o " " \o y, "?", sz[y] + 2 * sz[b], 0, Vec1(b) \/ Vec1(y)), f)
                     [] r2 <= 65 -> TwoOf(Full(Vs \cup {"f0"}), Full(Es4), LAMBDA a, y : R("subd " \o Pick(Es4) \o " " \o a \o " " \o Pick(Small) \o " " \o y, "?", sz[y], 0, Vec1(y)), f)
                     [] r2 <= 80 -> ThreeOf(Full(Es4), Full(Es4), Full(Es4), LAMBDA a, b, y : CHOOSE z \in {R("subl " \o Pick(Es4) \o " " \o a \o " " \o b \o " " \o c2 \o " " \o d2 \o " " \o y, "?", sz[y] + 2 * (sz[b] + sz[d2]), 0, Vec1(b) \/ Vec1(d2) \/ Vec1(y)) : c2 \in {Pick(Full(Es4))}, d2 \in {Pick(Full(Es4))}} : TRUE, f)
                     [] r2 <= 90 -> ThreeOf(Full(Scal), Full(Scal), Full(Scal \cup Ws), LAMBDA a, b, y : R("raws " \o Pick(Es4) \o " " \o a \o " " \o b \o " " \o y, "?", sz[y] + 2 * sz[b], 0, Vec1(b) \/ Vec1(y)), f)
                     [] OTHER -> ThreeOf(Es4, Full(Es4 \cup Us \cup Bs \cup Vs), Full(Vs), LAMBDA x, y, z : IF sz[y] > 9 THEN f ELSE R("rdiff " \o x \o " " \o y \o " " \o z, x, 4 * sz[y], 0, Vec1(y)), f))
    [] r = 76 -> ThreeOf(Full(Is), Full(Vs), Full(Es4), LAMBDA i, v, y : R("subint " \o Pick(Es4) \o " " \o Nm(Pick(0..1)) \o " " \o i \o " " \o v \o " " \o y, "?", sz[y] + 3 * sz[i], 0, Vec1(i) \/ Vec1(y)), f)
    [] r <= 79 -> TwoOf(Es4, Full(Qs \cup Is \cup {w \in Ws : ln[w] > 0}), LAMBDA x, y : R("get " \o x \o " " \o y \o " " \o Nm(IF y \in Ws THEN Pick(0..(ln[y] - 1)) ELSE Pick(0..1)), x, sz[y], 0, Vec1(y)), f)
    [] r <= 84 -> TwoOf({w \in Full(Ws) : ln[w] > 0}, Full(Es4), LAMBDA w, e :
                     CASE r2 <= 30 -> R("put " \o w \o " " \o Nm(Pick(0..(ln[w] - 1))) \o " " \o e, w, sz[w] + sz[e], ln[w], TRUE)
                       [] r2 <= 50 -> R("push " \o w \o " " \o e, w, sz[w] + sz[e], ln[w] + 1, TRUE)
                       [] r2 <= 60 /\ ln[w] > 1 -> R("pop " \o w, w, sz[w], ln[w] - 1, TRUE)
                       [] r2 <= 70 /\ ln[w] > 1 -> R("erase " \o w \o " " \o Nm(Pick(0..(ln[w] - 1))), w, sz[w], ln[w] - 1, TRUE)
                       [] r2 <= 80 -> R("vin " \o w \o " " \o Nm(Pick(0..(ln[w] - 1))), w, 2 * sz[w], ln[w], TRUE)
                       [] OTHER -> R("vop " \o w \o " * " \o w \o " " \o e, w, sz[w] + ln[w] * sz[e], ln[w], TRUE), f)
    [] r <= 86 -> TwoOf(Full(Ws), Full(Ws), LAMBDA a, b : IF ln[a] # ln[b] \/ ln[a] = 0 THEN f
                     ELSE IF r2 <= 50 THEN R("vop " \o a \o " " \o Pick({"+", "-"}) \o " " \o a \o " " \o b, a, sz[a] + sz[b] + 2, ln[a], TRUE)
                     ELSE R("vop " \o Pick(Es4) \o " * " \o a \o " " \o b, "?", sz[a] + sz[b] + 2, 0, TRUE), f)
    [] r <= 89 -> ThreeOf(Qs \cup Is, Full(Scal), Full(Scal), LAMBDA x, y, z : R("mk " \o x \o " " \o y \o " " \o z, x, sz[y] + sz[z], 2, TRUE), f)
    [] r = 90 -> ThreeOf(Full(Is), Full(Es4), Full(Vs), LAMBDA i, y, v : R("int " \o Pick(Es4) \o " " \o i \o " " \o y \o " " \o v, "?", sz[i] + sz[y] + 1, 0, Vec1(i) \/ Vec1(y)), f)
    [] r = 91 -> TwoOf(Es4, Full(Scal), LAMBDA x, y : R("sint " \o x \o " " \o Nm(Pick(0..1)) \o " " \o y, x, sz[y] + 1, 0, Vec1(y)), f)
    [] r = 92 -> TwoOf(Full(Es4), Full(Scal \cup Ws), LAMBDA x, y : R("ptr " \o x \o " " \o y, x, sz[y], 0, Vec1(y)), f)
    [] r = 93 -> OneOf({p \in Same1 : sz[p[1]] > 0 /\ sz[p[2]] > 0}, LAMBDA p : R("swap " \o p[1] \o " " \o p[2], "swap " \o p[1] \o p[2], 0, 0, FALSE), f)
    [] r = 94 /\ r2 > 85 -> TwoOf(Full(Qs), Full(Qs), LAMBDA x, y : IF Vec1(y) /\ ln[y] = 9 THEN f ELSE R("coordq " \o x \o " " \o Nm(Pick(1..3)) \o " " \o y, x, 6 * sz[y], 2, TRUE), f)
    [] r = 94 -> TwoOf(Es4, Full(Es4 \cup Us \cup Bs), LAMBDA x, y : IF r2 <= 50 THEN R("mani " \o x \o " " \o y, x, 3 * sz[y], 0, Vec1(y))
                     ELSE IF y \in Es4 /\ ~Vec1(y) THEN R("coord " \o x \o " " \o Nm(Pick(1..3)) \o " " \o y, x, 6 * sz[y], 0, TRUE) ELSE f, f)
    [] r = 95 -> OneOf(Full(Es4 \cup Us \cup Bs \cup Vs), LAMBDA y : Look("eval " \o y \o " " \o Nm(Pick(1..3))), f)
    [] r = 96 -> TwoOf(Full(Scal), Full(Scal), LAMBDA a, b : Look("equal " \o a \o " " \o b), f)
    [] r = 97 /\ r2 <= 30 -> OneOf(Full(Rng1(Objs)), LAMBDA y : Look("show " \o y), f)
    [] r = 97 -> OneOf(Full(Scal), LAMBDA y : IF r2 <= 50 THEN Look("ask " \o y) ELSE IF y \in Es4 \cup Us \cup Bs THEN Look("tex " \o y) ELSE f, f)
    [] r = 98 -> OneOf(Full(Es4 \cup Us \cup Bs), LAMBDA y : IF r2 <= 50 THEN Look("trav " \o y \o " " \o Nm(Pick(0..1))) ELSE IF y \in Es4 /\ ~Vec1(y) THEN Look("quad " \o y \o " " \o Nm(Pick(0..2))) ELSE f, f)
    [] r = 99 -> IF r2 <= 40 THEN OneOf(Full(Es4 \cup Us \cup Bs), LAMBDA x : R("num " \o x \o " " \o Pick(Small), x, 3, 0, FALSE), f)
                 ELSE OneOf(Full(Es4 \cup Bs), LAMBDA x : R("ct " \o x \o " " \o Nm(IF x \in Bs THEN Pick({0, 2, 3, 4}) ELSE Pick(0..4)), x, 5, 0, FALSE), f)
    [] OTHER -> IF r2 <= 60 THEN OneOf(Full(Rng1(Objs)), LAMBDA x : R("clr " \o x, x, 0, 0, FALSE), f)
                ELSE OneOf(Full(Cs \cup Us \cup Bs), LAMBDA x : IF x \in Us \cup Bs THEN R("ct " \o x \o " 0", x, 3, 0, FALSE) ELSE f, f)
(* the name of the target when it was drawn inside the text *)
Word2(t) == LET p == CHOOSE i \in 1..Len(t) : SubSeq(t, i, i) = " " /\ \A m \in 1..(i - 1) : SubSeq(t, m, m) # " " IN SubSeq(t, p + 1, p + 2)
Start == [s \in Rng1(Objs) |-> 0]
WsInit == n = 0 /\ j = 0 /\ sz = Start /\ ln = Start /\ vc = {}
WsNext ==
  /\ n < Count
  /\ \E f \in {Fresh(Pick(Rng1(Objs)))} : \E d0 \in {Dice(r, r2, f) : r \in {IF j < 6 THEN 1 ELSE Pick(1..100)}, r2 \in {Pick(1..100)}} : \E d \in {IF d0.n > Lim THEN f ELSE d0} :
       /\ PrintT("GEN " \o Nm(n) \o " " \o d.t)
       /\ IF Len(d.x) > 2 THEN LET a == SubSeq(d.x, 6, 7) b == SubSeq(d.x, 8, 9) IN
              /\ sz' = [sz EXCEPT ![a] = sz[b], ![b] = sz[a]] /\ ln' = [ln EXCEPT ![a] = ln[b], ![b] = ln[a]]
              /\ vc' = {IF s = a THEN b ELSE IF s = b THEN a ELSE s : s \in vc}
          ELSE IF d.x = "" THEN UNCHANGED <<sz, ln, vc>>
          ELSE LET x == IF d.x = "?" THEN Word2(d.t) ELSE d.x IN
              /\ sz' = [sz EXCEPT ![x] = d.n] /\ ln' = [ln EXCEPT ![x] = d.l] /\ vc' = IF d.v THEN vc \cup {x} ELSE vc \ {x}
  /\ j' = j + 1 /\ n' = n
(* a new history *)
WsReset == /\ j >= Steps /\ n' = n + 1 /\ j' = 0 /\ sz' = Start /\ ln' = Start /\ vc' = {}
WsStep == IF j < Steps THEN WsNext ELSE WsReset
=============================================================================
