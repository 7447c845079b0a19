-------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* Simplification as a transition system.  A formula is built up node by   *)
(* node (phase "grow"); then single rewriting steps are taken at arbitrary *)
(* places, in arbitrary order (phase "run").                               *)
(*                                                                         *)
(* Checked: every step keeps the value (C03); every step decreases Weight, *)
(* so every sequence of steps is finite (C04); a step is possible exactly  *)
(* when the formula is not in normal form (C04); the bottom-up strategy    *)
(* reaches a normal form, which is a fixed point (C04).                    *)
(***************************************************************************)
EXTENDS Props, IOUtils

MaxSize == atoi(IOEnv.MAX_SIZE)
Rich == IOEnv.RICH = "1"

VARIABLES t, ph
vars == <<t, ph>>

(* constants: z the value if small, v the value in the field *)
KF(v) == [k |-> "c", t |-> "d", h |-> ToString(v), z |-> v, v |-> v, f |-> "", c |-> 0]
K(z) == KF((z + P) % P)
Leaves == {Var(0), K(0), K(1), K(2)} \cup (IF Rich THEN {Var(1), K(-1), Fs(0, 0)} ELSE {})
Heads == {"sin"} \cup (IF Rich THEN {"grad"} ELSE {})
Bits == Leaves \cup {Bin(o, a, b) : o \in Arith, a \in {Var(0), K(0), K(1)}, b \in {Var(0), K(0), K(2)}}
        \cup {Bin("*", Vec(<<a, b>>), Vec(<<Var(0), a>>)) : a \in {Var(0), K(0)}, b \in {K(2), Bin("-", K(0), Var(0))}}

(* one local step *)
RECURSIVE Local(_), DotT(_, _, _), Rewrites(_)
DotT(a, b, j) == IF j = 1 THEN Bin("*", a.e[1], b.e[1]) ELSE Bin("+", DotT(a, b, j - 1), Bin("*", a.e[j], b.e[j]))
Local(n) ==
  IF n.k # "b" THEN {}
  ELSE (IF ConstArith(n.a) /\ ConstArith(n.b) THEN {KF(Val(n, Es[1]))} ELSE {})
       \cup (IF n.o = "+" /\ Zero(n.a) THEN {n.b} ELSE {}) \cup (IF n.o \in {"+", "-"} /\ Zero(n.b) THEN {n.a} ELSE {})
       \cup (IF n.o = "-" /\ Zero(n.a) THEN {Bin("*", K(-1), n.b)} ELSE {})
       \cup (IF n.o = "*" /\ (Zero(n.a) \/ Zero(n.b)) THEN {K(0)} ELSE {})
       \cup (IF n.o = "*" /\ One(n.a) THEN {n.b} ELSE {}) \cup (IF n.o \in {"*", "/"} /\ One(n.b) THEN {n.a} ELSE {})
       \cup (IF n.o = "*" /\ n.a.k = "w" /\ n.b.k = "w" THEN {DotT(n.a, n.b, Len(n.a.e))} ELSE {})
       \cup (IF n.o = "/" /\ Zero(n.a) THEN {K(0)} ELSE {})
Rewrites(n) ==
  Local(n) \cup (CASE n.k = "u" -> {[n EXCEPT !.a = q] : q \in Rewrites(n.a)}
                   [] n.k = "b" -> {[n EXCEPT !.a = q] : q \in Rewrites(n.a)} \cup {[n EXCEPT !.b = q] : q \in Rewrites(n.b)}
                   [] OTHER -> {})
(* vectors are multiplied out, a subtraction may become a multiplication *)
RECURSIVE Weight(_), WSum(_, _)
WSum(s, j) == IF j = 0 THEN 0 ELSE Weight(s[j]) + WSum(s, j - 1)
Weight(n) == CASE n.k = "u" -> 2 + Weight(n.a)
               [] n.k = "b" -> (IF n.o = "-" THEN 5 ELSE 2) + Weight(n.a) + Weight(n.b)
               [] n.k = "w" -> 4 * Len(n.e) + WSum(n.e, Len(n.e))
               [] OTHER -> 2
(* bottom-up *)
RECURSIVE Simp(_)
Simp(n) ==
  LET m == CASE n.k = "u" -> [n EXCEPT !.a = Simp(n.a)]
             [] n.k = "b" -> [n EXCEPT !.a = Simp(n.a), !.b = Simp(n.b)]
             [] OTHER -> n
  IN IF Local(m) = {} THEN m ELSE Simp(CHOOSE q \in Local(m) : TRUE)

Init == t \in Leaves /\ ph = "grow"
Grow == /\ ph = "grow" /\ ph' = "grow"
        /\ \E l \in Bits, o \in Arith, h \in Heads :
             t' \in {Un(h, t), Bin(o, t, l), Bin(o, l, t)}
        /\ Size(t') <= MaxSize
Start == ph = "grow" /\ ph' = "run" /\ t' = t
Run == ph = "run" /\ ph' = "run" /\ t' \in Rewrites(t)
Next == Grow \/ Start \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Run)

KeepsValue == [][ph = "run" => Equal(t, t')]_vars
Decreases  == [][ph = "run" => Weight(t') < Weight(t)]_vars
StepsIffNotNormal == Normal(t) <=> Rewrites(t) = {}
Terminates == ph = "run" ~> Normal(t)
Strategy == ph = "grow" => LET s == Simp(t) IN Normal(s) /\ Simp(s) = s /\ Equal(t, s)
=============================================================================
