----------------------------- MODULE Workspace -----------------------------
(***************************************************************************)
(* A client's workspace: named objects of every class of the library, each *)
(* holding one value.  A command changes the object it names as its target *)
(* and nothing else (value semantics), and what it stores there is given   *)
(* by the meaning of the command.                                          *)
(*                                                                         *)
(*   e0..e3 rt_expr   u0,u1 rt_unary_expr   b0,b1 rt_binary_expr           *)
(*   v0,v1 rt_variable  c0,c1 rt_constant   f0 rt_function_symbol          *)
(*   w0,w1 rt_vector_expr   q0,q1 rt_equation   i0,i1 rt_interval          *)
(*                                                                         *)
(* Equations and intervals are pairs, written as vectors of two.           *)
(***************************************************************************)
EXTENDS Props

None == [k |-> "n"]
UnW(o, p, x, a) == [k |-> "u", o |-> o, p |-> p, x |-> x, a |-> a]
Slots == {"e0", "e1", "e2", "e3", "u0", "u1", "b0", "b1", "v0", "v1", "c0", "c1", "f0", "w0", "w1", "q0", "q1", "i0", "i1"}
Empty == [s \in Slots |-> None]
Kind1(s) == CASE s \in {"e0", "e1", "e2", "e3"} -> "e" [] s \in {"u0", "u1"} -> "u" [] s \in {"b0", "b1"} -> "b" [] s \in {"v0", "v1"} -> "v"
              [] s \in {"c0", "c1"} -> "c" [] s = "f0" -> "f" [] s \in {"w0", "w1"} -> "w" [] s \in {"q0", "q1"} -> "q" [] OTHER -> "i"
(* commands that only look *)
Looks == {"probe", "show", "eval", "equal", "ask", "tex", "trav", "quad"}
(* the objects a command may change *)
Target(q) == IF q.c \in Looks THEN {} ELSE IF q.c = "swap" THEN {q.x, q.y} ELSE {q.x}

(* t holds exactly the formula n, as far as an object of the class of s can: *)
(* unary and binary objects represent a constant by a formula of that value  *)
Holds(s, n, t) == IF Kind1(s) \in {"u", "b"} /\ n.k # Kind1(s) THEN t.k = Kind1(s) /\ SameValue(n, t) ELSE Same(n, t)
(* the same, where the library may have combined constants *)
Denotes(s, n, t) == (Kind1(s) \in {"u", "b"} => t.k = Kind1(s)) /\ (Same(n, t) \/ ((HasVec(n) <=> HasVec(t)) /\ (HasVec(n) \/ SameValue(n, t))))
Child(n, j) == IF n.k = "u" \/ j = 0 THEN n.a ELSE n.b
RemoveAt1(s, j) == [m \in 1..(Len(s) - 1) |-> IF m < j THEN s[m] ELSE s[m + 1]]
RECURSIVE Shift(_, _)
(* every x0 increased by the constant c; vectors are handled as a whole *)
Shift(n, c) == CASE n.k = "v" /\ n.i = 0 -> Bin("+", n, c) [] n.k = "u" -> [n EXCEPT !.a = Shift(n.a, c)]
                 [] n.k = "b" -> [n EXCEPT !.a = Shift(n.a, c), !.b = Shift(n.b, c)] [] OTHER -> n
ByFs(n, d) == n.k = "f" /\ d.k = "v"

(* a scalar, or a vector of scalars; anything else (a quotient of vectors, 0 times *)
(* a vector, ...) has no agreed value once it is simplified                        *)
Flat(n) == IF n.k = "w" THEN \A m \in 1..Len(n.e) : ~HasVec(n.e[m]) ELSE ~HasVec(n)

(* may the command store t in its target?  st: the workspace before *)
Stores(q, st, t) ==
  CASE q.c = "set"  -> IF Kind1(q.x) \in {"q", "i"} THEN Same(t, Vec(q.t)) ELSE Same(t, q.t[1])
    [] q.c = "duo"  -> IF Kind1(q.x) \in {"q", "i"} THEN Same(t, Vec(<<q.t[3], q.t[4]>>)) ELSE Same(t, q.t[2])
    [] q.c = "clr"  -> t = None
    [] q.c \in {"cp", "cc", "ptr"} -> Holds(q.x, st[q.y], t)
    [] q.c = "num"  -> Holds(q.x, q.t[1], t)
    [] q.c = "ct"   -> (Kind1(q.x) \in {"u", "b"} => t.k = Kind1(q.x)) /\ SameValue(q.t[1], t)
    [] q.c = "op"   -> Denotes(q.x, Bin(q.o, st[q.y], st[q.z]), t)
    [] q.c = "opn"  -> Denotes(q.x, Bin(q.o, st[q.y], q.t[1]), t)
    [] q.c = "nop"  -> Denotes(q.x, Bin(q.o, q.t[1], st[q.y]), t)
    [] q.c = "fn"   -> Denotes(q.x, Un(q.o, st[q.y]), t)
    [] q.c = "child" -> Holds(q.x, Child(st[q.y], q.k), t)
    [] q.c = "diff" -> IF HasVec(st[q.y]) THEN TRUE
                       ELSE IF ByFs(st[q.y], st[q.z]) THEN Same(t, Pd(st[q.y], st[q.z].i))
                       ELSE ~NoRule(st[q.y], st[q.z]) /\ ((st[q.z].k = "v" /\ (HasFs(st[q.y]) \/ HasSym(st[q.y]))) \/ IsDerivative(st[q.y], st[q.z], t))
    [] q.c = "simp" -> HasVec(st[q.y]) \/ SameValue(st[q.y], t)
    [] q.c = "isimp" -> HasVec(st[q.x]) \/ SameValue(st[q.x], t)
    [] q.c \in {"subst", "subv", "subd", "subl"} ->
         \E r \in {Subst(st[q.w], IF q.c = "subl" THEN <<st[q.y], st[q.Y]>> ELSE <<st[q.y]>>,
                         CASE q.c = "subl" -> <<st[q.z], st[q.Z]>> [] q.c = "subd" -> q.t [] OTHER -> <<st[q.z]>>)} : Same(r, t) \/ ~Flat(r) \/ Equal(r, t)
    [] q.c = "raws" -> Same(Subst(st[q.w], <<st[q.y]>>, <<st[q.z]>>), t)
    [] q.c = "rdiff" -> HasVec(st[q.y]) \/ (~NoRule(st[q.y], st[q.z]) /\ ((st[q.z].k = "v" /\ (HasFs(st[q.y]) \/ HasSym(st[q.y]))) \/ IsDerivative(st[q.y], st[q.z], t)))
    [] q.c = "subint" -> Same(SubInt(st[q.w], [id |-> q.k, lo |-> st[q.y].e[1], hi |-> st[q.y].e[2], v |-> st[q.z].i]), t)
    [] q.c = "get"  -> Same(st[q.y].e[q.k + 1], t)
    [] q.c = "put"  -> Same([st[q.x] EXCEPT !.e[q.k + 1] = st[q.y]], t)
    [] q.c = "vin"  -> Same([st[q.x] EXCEPT !.e[q.k + 1] = st[q.x]], t)
    [] q.c = "push" -> Same([st[q.x] EXCEPT !.e = Append(@, st[q.y])], t)
    [] q.c = "pop"  -> Same([st[q.x] EXCEPT !.e = SubSeq(@, 1, Len(@) - 1)], t)
    [] q.c = "erase" -> Same([st[q.x] EXCEPT !.e = RemoveAt1(@, q.k + 1)], t)
    [] q.c = "vop"  -> IF Kind1(q.x) = "w" THEN t.k = "w" /\ Len(t.e) = Len(IF st[q.y].k = "w" THEN st[q.y].e ELSE st[q.z].e) /\ (Flat(st[q.y]) /\ Flat(st[q.z]) /\ (Kind1(q.z) = "e" => ~HasVec(st[q.z])) => SameVValue(Bin(q.o, st[q.y], st[q.z]), t))
                       ELSE Flat(st[q.y]) /\ Flat(st[q.z]) => SameVValue(Bin(q.o, st[q.y], st[q.z]), t)
    [] q.c = "mk"   -> Same(Vec(<<st[q.y], st[q.z]>>), t)
    [] q.c = "int"  -> Same(UnW("int", <<st[q.w].i>>, st[q.y].e, st[q.z]), t)
    [] q.c = "sint" -> Same(UnW("sint", <<q.k>>, <<>>, st[q.y]), t)
    [] q.c = "mani" -> Same(Shift(st[q.y], q.t[1]), t)
    [] q.c = "coord" -> SameVValue(Coord(st[q.y], q.k), t)
    [] q.c = "coordq" -> \A m \in {1, 2} : SameVValue(Coord(st[q.y].e[m], q.k), t.e[m])
    [] OTHER -> FALSE
(* may the command end with the exception x? *)
Refused(q, st, x) ==
  \/ q.c \in Looks
  \/ q.c \in {"diff", "rdiff"} /\ x = "not_differentiable" /\ (HasVec(st[q.y]) \/ NoRule(st[q.y], st[q.z]))
  \/ q.c \in {"simp", "isimp"} /\ HasVec(st[IF q.c = "simp" THEN q.y ELSE q.x])

(* what a question was answered (a: the answers), and every evaluation made (l), is *)
(* what the objects in the workspace say, however they came to say it               *)
RECURSIVE HasNan(_)
HasNan(n) == CASE n.k = "c" -> n.h \in {"nan", "-nan"}
               [] n.k = "u" -> HasNan(n.a) \/ \E j \in 1..Len(n.x) : HasNan(n.x[j])
               [] n.k = "b" -> HasNan(n.a) \/ HasNan(n.b)
               [] n.k = "w" -> \E j \in 1..Len(n.e) : HasNan(n.e[j])
               [] OTHER -> FALSE
Bool(b) == IF b THEN 1 ELSE 0
AnswerBad(q, st, a) ==
  IF a = <<>> THEN {}
  ELSE CASE q.c = "equal" -> LET s == Bool(Same(st[q.x], st[q.y])) IN
                             If(~HasNan(st[q.x]) /\ (a[1] # s \/ a[2] # s), "deep_equal") \cup If(a[3] # Bool(SameKind(st[q.x], st[q.y])), "shallow_equal")
         [] q.c = "ask" -> If(a[1] = 1 /\ ~Closed(st[q.x]), "reported constant") \cup If(a[1] # 1 /\ ConstArith(st[q.x]), "not reported constant")
         [] q.c = "trav" -> If(a[1] # Len(Visit(st[q.x], {"all"})), "nodes visited")
         [] OTHER -> {}
LookBad(l) == UNION {{r.s \o " evaluated: " \o z : z \in EvalOk(r.e, r.p, r.T) \cup ExcOk(r.e, Len(r.p))
                        \cup If(r.c = 1 /\ ~Closed(r.e), "reported constant") \cup If(r.c # 1 /\ ConstArith(r.e), "not reported constant")} : r \in Rng(l)}

(* complaints about a step from workspace st to workspace s2 *)
StepBad(q, x, st, s2) ==
  {"changed " \o s : s \in {z \in Slots \ Target(q) : ~Same(st[z], s2[z])}}
  \cup (IF x = "skip" THEN {"changed target" : s \in {z \in Target(q) : ~Same(st[z], s2[z])}}
        ELSE IF x # "" THEN {"target lost by an exception" : s \in {z \in Target(q) : ~Same(st[z], s2[z])}} \cup (IF Refused(q, st, x) THEN {} ELSE {"exception " \o x})
        ELSE IF q.c = "swap" THEN (IF Same(st[q.x], s2[q.y]) /\ Same(st[q.y], s2[q.x]) THEN {} ELSE {"not exchanged"})
        ELSE IF q.c \in Looks THEN {}
        ELSE IF Stores(q, st, s2[q.x]) THEN {} ELSE {q.c \o " stored something else"})
=============================================================================
