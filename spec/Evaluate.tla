------------------------------ MODULE Evaluate ------------------------------
(***************************************************************************)
(* Evaluation as small steps: any node whose operands are numbers becomes   *)
(* a number, in any order, or raises.  Checked: every order ends with the   *)
(* value Val gives (C01), or with an exception, and then one of those Errs  *)
(* allows; an exception is possible exactly if Errs allows one (C12).       *)
(***************************************************************************)
EXTENDS Props, IOUtils
MaxSize == atoi(IOEnv.MAX_SIZE)
VARIABLES t, now, dim, x
vars == <<t, now, dim, x>>
KF(v) == [k |-> "c", t |-> "d", h |-> ToString(v), z |-> v, v |-> v, f |-> "", c |-> 0]
UnP(o, p, xs, a) == [k |-> "u", o |-> o, p |-> p, x |-> xs, a |-> a]
Leaves == {Var(0), Var(1), Var(2), KF(2), KF(0), Fs(0, 0)}
Bits == {Var(0), Var(2), KF(0), Bin("-", Var(1), Var(0)), Un("log", Var(1)), Vec(<<Var(0), KF(2)>>)}
Point == [x |-> [j \in 1..NVars |-> (j * j * 91 + 3) % P], s |-> 1]
Number(v) == [k |-> "num", v |-> v]
IsNum(n) == n.k = "num"
RECURSIVE Steps(_), Raises(_)
Steps(n) ==
  CASE n.k = "c" -> {Number(ConstVal(n))}
    [] n.k = "v" -> IF n.i < dim THEN {Number(VarVal(Point, n.i))} ELSE {}
    [] n.k = "u" -> IF IsNum(n.a) THEN (IF n.o \in Funcs THEN {Number(IF n.a.v < 0 THEN n.a.v ELSE FunVal(n.o, n.a.v))} ELSE {})
                    ELSE {[n EXCEPT !.a = q] : q \in Steps(n.a)}
    [] n.k = "b" -> IF IsNum(n.a) /\ IsNum(n.b) THEN {Number(Op2(n.o, n.a.v, n.b.v))}
                    ELSE {[n EXCEPT !.a = q] : q \in Steps(n.a)} \cup {[n EXCEPT !.b = q] : q \in Steps(n.b)}
    [] OTHER -> {}
Raises(n) ==
  CASE n.k = "v" -> IF n.i < dim THEN {} ELSE {"index:" \o ToString(n.i)}
    [] n.k = "u" -> Raises(n.a) \cup (IF n.o \in Symbolic THEN {ArgErr(n)} ELSE {})
    [] n.k = "b" -> Raises(n.a) \cup Raises(n.b)
    [] n.k \in {"f", "w"} -> {"not_evaluable"}
    [] OTHER -> {}
Init == t \in Leaves /\ now = [k |-> "n"] /\ dim = 0 /\ x = ""
Grow == /\ now.k = "n" /\ UNCHANGED <<now, dim, x>>
        /\ \/ t' \in {Un(o, t) : o \in {"sin", "sqrt", "grad"}} \cup {UnP("sint", <<1>>, <<>>, t), UnP("int", <<0>>, <<KF(0), KF(2)>>, t)}
           \/ \E l \in Bits, o \in {"+", "/"} : t' \in {Bin(o, t, l), Bin(o, l, t)}
        /\ Size(t') <= MaxSize
Start == now.k = "n" /\ now' = t /\ dim' \in 1..3 /\ UNCHANGED <<t, x>>
Step == now.k # "n" /\ x = "" /\ now' \in Steps(now) /\ UNCHANGED <<t, dim, x>>
Raise == now.k # "n" /\ x = "" /\ x' \in Raises(now) /\ UNCHANGED <<t, now, dim>>
Next == Grow \/ Start \/ Step \/ Raise
Spec == Init /\ [][Next]_vars
Finished == IsNum(now)
ValueIsVal == Finished => Errs(t, dim) = {} /\ (now.v = Val(t, Point) \/ Val(t, Point) = Opaque)
RaisesAllowed == x # "" => x \in Errs(t, dim)
(* nothing else can stop it; it cannot finish if anything raises *)
NeverStuck == now.k # "n" /\ x = "" /\ ~Finished => Steps(now) # {} \/ Raises(now) # {}
RaisesIff == now.k # "n" /\ x = "" => (Raises(now) = {}) = (Errs(t, dim) = {})
=============================================================================
