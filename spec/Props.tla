-------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* What every call of the library may return: one verdict operator per     *)
(* property.  A verdict is a set of complaints, {} if the observed call is  *)
(* a step the specification allows.  ev is one observation of a driver.     *)
(***************************************************************************)
EXTENDS Sem, Latex, TLC

Rng(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE HasVec(_), HasSym(_), HasFs(_), HasK(_, _)
HasVec(n) == CASE n.k = "w" -> TRUE
               [] n.k = "u" -> HasVec(n.a)
               [] n.k = "b" -> HasVec(n.a) \/ HasVec(n.b)
               [] OTHER -> FALSE
HasSym(n) == CASE n.k = "u" -> n.o \in Symbolic \/ HasSym(n.a)
               [] n.k = "b" -> HasSym(n.a) \/ HasSym(n.b)
               [] n.k = "w" -> \E j \in 1..Len(n.e) : HasSym(n.e[j])
               [] OTHER -> FALSE
HasFs(n) == CASE n.k = "f" -> TRUE
              [] n.k = "u" -> HasFs(n.a)
              [] n.k = "b" -> HasFs(n.a) \/ HasFs(n.b)
              [] n.k = "w" -> \E j \in 1..Len(n.e) : HasFs(n.e[j])
              [] OTHER -> FALSE
HasK(n, o) == CASE n.k = "u" -> n.o = o \/ HasK(n.a, o)
                [] n.k = "b" -> HasK(n.a, o) \/ HasK(n.b, o)
                [] n.k = "w" -> \E j \in 1..Len(n.e) : HasK(n.e[j], o)
                [] OTHER -> FALSE

Equal(n, m) == IF HasVec(n) THEN SameVValue(n, m) ELSE SameValue(n, m)
If(c, s) == IF c THEN {s} ELSE {}

(* ---------------- C03, C04: simplification ---------------- *)
C03(ev) ==
  If(~Same(ev.e, ev.after), "original changed")
  \cup {r.w \o ": exception " \o r.x : r \in {q \in Rng(ev.r) \cup Rng(ev.s) : q.x # ""}}
  \cup {r.w \o ": value differs" : r \in {q \in Rng(ev.r) \cup Rng(ev.s) : q.x = "" /\ ~Equal(ev.e, q.t)}}
C04(ev) ==
  If((ev.c0 = 1) = Normal(ev.e), "can_simplify of the original")
  \cup If(ev.c1 # 0, "result can be simplified")
  \cup {r.w \o ": exception " \o r.x : r \in {q \in Rng(ev.r) : q.x # ""}}
  \cup {r.w \o ": not in normal form" : r \in {q \in Rng(ev.r) : q.x = "" /\ ~Normal(q.t)}}
  \cup {"again: changed" : r \in {q \in Rng(ev.r) : q.w = "again" /\ ~Same(q.t, ev.r[1].t)}}

(* ---------------- C05, C06: differentiation ---------------- *)
(* no rule: reached by differentiation with respect to d *)
RECURSIVE NoRule(_, _)
NoRule(n, d) ==
  CASE n.k = "u" -> n.o \in {"fabs", "div", "pd", "int", "sint"}
                    \/ (n.o = "grad" /\ d.k = "v") \/ NoRule(n.a, d)
    [] n.k = "b" -> NoRule(n.a, d) \/ NoRule(n.b, d)
    [] n.k = "w" -> \E j \in 1..Len(n.e) : NoRule(n.e[j], d)
    [] n.k = "f" -> d.k = "v"
    [] OTHER -> FALSE
DerivOk(n, d, t) ==
  IF n.k = "w" THEN t.k = "w" /\ Len(t.e) = Len(n.e) /\ \A j \in 1..Len(n.e) : IsDerivative(n.e[j], d, t.e[j])
  ELSE IsDerivative(n, d, t)
C05(ev) ==
  IF ev.d.k # "v" \/ NoRule(ev.e, ev.d) \/ HasFs(ev.e) \/ HasSym(ev.e) THEN {}
  ELSE If(~Same(ev.e, ev.after), "original changed")
       \cup {r.w \o ": exception " \o r.x : r \in {q \in Rng(ev.r) : q.x # ""}}
       \cup {r.w \o ": wrong derivative" : r \in {q \in Rng(ev.r) : q.x = "" /\ ~DerivOk(ev.e, ev.d, q.t)}}
C06(ev) ==
  If(~Same(ev.e, ev.after), "original changed") \cup
  (IF ev.e.k = "f" /\ ev.d.k = "v"
   THEN {r.w \o ": not the partial derivative" : r \in {q \in Rng(ev.r) : q.w = "fs" /\ ~Same(q.t, Pd(ev.e, ev.d.i))}}
   ELSE IF NoRule(ev.e, ev.d)
   THEN {r.w \o ": not refused" : r \in {q \in Rng(ev.r) : q.x = ""}}
        \cup {r.w \o ": refused with " \o r.x : r \in {q \in Rng(ev.r) : q.x # "" /\ q.x # "not_differentiable"}}
   ELSE {r.w \o ": exception " \o r.x : r \in {q \in Rng(ev.r) : q.x # ""}}
        \cup {r.w \o ": wrong derivative" : r \in {q \in Rng(ev.r) : q.x = "" /\ ~DerivOk(ev.e, ev.d, q.t)}})

(* ---------------- C07: substitution ---------------- *)
SameBag(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Cardinality({i \in 1..Len(s) : Same(s[i], s[j])}) = Cardinality({i \in 1..Len(t) : Same(t[i], s[j])})
SameSeq(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Same(s[j], t[j])
C07(ev) ==
  LET t == Subst(ev.e, ev.ss, ev.rr) IN
  If(~Same(ev.e, ev.after), "original changed")
  \cup If(~SameSeq(ev.ss, ev.ssa), "search expression changed")
  \cup If(~SameSeq(ev.rr, ev.rra), "replacement changed")
  \cup {r.w \o ": exception " \o r.x : r \in {q \in Rng(ev.raw) \cup Rng(ev.r) : q.x # ""}}
  \cup {r.w \o ": not the substituted tree" : r \in {q \in Rng(ev.raw) : q.x = "" /\ ~Same(q.t, t)}}
  \cup {r.w \o ": value differs" : r \in {q \in Rng(ev.r) : q.x = "" /\ ~Equal(t, q.t)}}
  \cup {r.w \o ": differs from the other overloads" : r \in {q \in Rng(ev.r) : q.x = "" /\ ~Same(q.t, ev.r[1].t)}}

(* ---------------- C10: equality ---------------- *)
C10(ev) ==
  LET s == Same(ev.a, ev.b)
      k == SameKind(ev.a, ev.b)
  IN If((ev.dab = 1) # s, "deep_equal(a,b)") \cup If((ev.dba = 1) # s, "deep_equal(b,a)")
     \cup If((ev.dcb = 1) # s, "deep_equal of copies")
     \cup If(ev.daa # 1, "not reflexive") \cup If(ev.dac # 1 \/ ev.dca # 1, "a copy differs")
     \cup If((ev.sab = 1) # k, "shallow_equal(a,b)") \cup If((ev.sba = 1) # k, "shallow_equal(b,a)")
     \cup If(ev.saa # 1, "shallow_equal of a copy")

(* ---------------- C11: constants ---------------- *)
RECURSIVE DependsOn(_)     \* a variable, symbol or vector somewhere
DependsOn(n) == CASE n.k = "c" -> FALSE
                  [] n.k = "u" -> DependsOn(n.a)
                  [] n.k = "b" -> DependsOn(n.a) \/ DependsOn(n.b)
                  [] OTHER -> TRUE
C11(ev) ==
  If(ev.c = 1 /\ ~Closed(ev.a), "reported constant")
  \cup If(ConstArith(ev.a) /\ ev.c # 1, "not reported constant")
  \cup If(ev.c = 1 /\ (ev.ux # "" \/ Len(ev.y) # 1 \/ ev.yx # <<>>), "constant without a single value")
  \cup If(ev.ux = "" /\ Len(ev.y) = 1 /\ ev.y[1] # ev.u, "unwrapped value differs")
  \cup If(DependsOn(ev.a) /\ ev.ux = "", "unwrapped although not constant")
  \cup If(DependsOn(ev.a) /\ ev.ux # "" /\ ~HasSym(ev.a) /\ ev.ux # "not_unwrappable", "unwrap raises " \o ev.ux)

(* ---------------- C01, C12: evaluation ---------------- *)
(* the exceptions a node may raise: "" if it has a value *)
ArgErr(n) == CASE n.o = "int" -> "analytic_integration"
               [] n.o = "sint" -> "symbolic_integral"
               [] OTHER -> "text"
RECURSIVE Errs(_, _)
Errs(n, dim) ==
  CASE n.k = "c" -> {}
    [] n.k = "v" -> IF n.i < dim THEN {} ELSE {"index:" \o ToString(n.i)}
    [] n.k = "u" -> Errs(n.a, dim) \cup (IF n.o \in Symbolic THEN {ArgErr(n)} ELSE {})
    [] n.k = "b" -> Errs(n.a, dim) \cup Errs(n.b, dim)
    [] OTHER -> {"not_evaluable"}
(* y: numbers observed, yx: exceptions observed, at every node *)
RECURSIVE EvalOk(_, _, _)
EvalOk(n, p, T) ==
  LET here == CASE n.k = "c" -> If(n.y # <<n.h>>, "constant")
                [] n.k = "v" -> IF n.i < Len(p) THEN If(n.y # <<p[n.i + 1]>>, "variable") ELSE {}
                [] n.k = "b" ->
                     IF n.a.y = <<>> \/ n.b.y = <<>> \/ n.a.yx # <<>> \/ n.b.yx # <<>> THEN {}
                     ELSE If(Len(n.y) # 1 \/ \E y \in Rng(n.y) : y \notin Rng(T[n.o \o "|" \o n.a.y[1] \o "|" \o n.b.y[1]]), n.o)
                [] n.k = "u" ->
                     IF n.o \notin Funcs \/ n.a.y = <<>> \/ n.a.yx # <<>> THEN {}
                     ELSE If(n.y = <<>> \/ \E y \in Rng(n.y) : y \notin Rng(T[n.o \o "|" \o n.a.y[1]]), n.o)
                [] OTHER -> {}
      below == CASE n.k = "b" -> EvalOk(n.a, p, T) \cup EvalOk(n.b, p, T)
                 [] n.k = "u" -> EvalOk(n.a, p, T)
                 [] OTHER -> {}
  IN IF below # {} THEN below ELSE here
(* one object at two points *)
C01(ev) == EvalOk(ev.e, ev.p, ev.T) \cup {"at a second point: " \o z : z \in EvalOk(ev.e2, ev.p2, ev.T)} \cup If(~Same(ev.before, ev.after), "evaluation changed the expression")
RECURSIVE ExcOk(_, _)
ExcOk(n, dim) ==
  LET errs == Errs(n, dim)
      here == IF errs = {} THEN {"exception " \o x : x \in Rng(n.yx)}
              ELSE If(n.y # <<>>, "a number where evaluation is impossible") \cup {"raises " \o x : x \in Rng(n.yx) \ errs}
      below == CASE n.k = "b" -> ExcOk(n.a, dim) \cup ExcOk(n.b, dim)
                 [] n.k = "u" -> ExcOk(n.a, dim)
                 [] OTHER -> {}
  IN IF below # {} THEN below ELSE here
C12(ev) == ExcOk(ev.e, Len(ev.p)) \cup ExcOk(ev.e2, Len(ev.p))

(* ---------------- C13: traversal, manipulation ---------------- *)
C13(ev) ==
  If(~Same(ev.e, ev.after), "original changed") \cup
  (IF ev.op = "trav"
   THEN If(~SameSeq(ev.l, Visit(ev.e, Rng(ev.set))), "nodes visited") \cup If(ev.distinct # 1, "a node visited twice")
        \cup If(\E i \in 1..Len(ev.l) : ev.cast[i] # <<ev.l[i].k>>, "callback for another kind of node")
   ELSE If(~Same(ev.t, Manip(ev.e, Rng(ev.set))), "result of the manipulation")
        \cup If(~SameBag(SelectSeq(ev.l, LAMBDA m : Sel(m, Rng(ev.set))), Replaced(ev.e, Rng(ev.set))), "functor called on other nodes than those replaced, or not once on each"))

(* ---------------- C14: quadrature ---------------- *)
Half == FInv(2)
(* value of n with variable i bound to w (no other variable occurs) *)
AtVal(n, i, w) == Val(n, [x |-> [j \in 1..NVars |-> IF j = i + 1 THEN w ELSE 0], s |-> 1])
Rule(lo, hi, i, n) ==
  LET a == Val(lo, Es[1])
      b == Val(hi, Es[1])
  IN IF a < 0 \/ b < 0 THEN Opaque
     ELSE LET v == AtVal(n, i, FMul(Half, FAdd(a, b))) IN IF v < 0 THEN v ELSE FMul(FSub(b, a), v)
IsZero(n) == ConstArith(n) /\ Val(n, Es[1]) = 0
(* the refusals that can be met: of an expression or one of its summands *)
RECURSIVE QErrs(_), QVal(_)
QErrs(n) ==
  CASE n.k = "u" /\ n.o = "int" -> {}
    [] n.k = "u" /\ n.o = "sint" -> {"symbolic_integral"}
    [] IsZero(n) -> {}
    [] n.k = "b" /\ n.o \in {"+", "-"} -> QErrs(n.a) \cup QErrs(n.b)
    [] OTHER -> {"no_integral"}
QVal(n) ==
  CASE n.k = "u" -> Rule(n.x[1], n.x[2], n.p[1], n.a)
    [] IsZero(n) -> 0
    [] OTHER -> LET a == QVal(n.a)
                    b == QVal(n.b)
                IN IF a < 0 \/ b < 0 THEN Bad(a, b) ELSE IF n.o = "+" THEN FAdd(a, b) ELSE FSub(a, b)
(* the integrals of a sum with their signs, as a user-defined rule is to be asked for them *)
RECURSIVE QParts(_, _)
QParts(n, sg) ==
  CASE n.k = "u" /\ n.o = "int" -> <<[s |-> sg, lo |-> n.x[1], hi |-> n.x[2], d |-> Var(n.p[1]), e |-> n.a]>>
    [] n.k = "b" /\ ~IsZero(n) -> QParts(n.a, sg) \o QParts(n.b, IF n.o = "+" THEN sg ELSE 0 - sg)
    [] OTHER -> <<>>
SameCall(p, q) == Same(p.lo, q.lo) /\ Same(p.hi, q.hi) /\ Same(p.d, q.d) /\ Same(p.e, q.e)
Asked(ev, ps) ==
  LET cs == ev.ucalls
      Cnt(q, z) == Cardinality({j \in 1..Len(q) : SameCall(q[j], z)})
      RECURSIVE Sum(_)
      Sum(j) == IF j = 0 THEN 0 ELSE Sum(j - 1) + ps[j].s * cs[CHOOSE i \in 1..Len(cs) : SameCall(cs[i], ps[j])].v
  IN If(ev.ux # "", "a user-defined rule: exception")
     \cup (IF Len(cs) # Len(ps) \/ \E j \in 1..Len(ps) : Cnt(ps, ps[j]) # Cnt(cs, ps[j]) THEN {"a user-defined rule is not applied to every integral once"}
           ELSE If(ev.utot # Sum(Len(ps)), "value with a user-defined rule"))
NumIs(y, v) == v < 0 \/ (Len(y) = 1 /\ (v \in {y[1].v, y[1].w} \/ y[1].w = Opaque))
C14(ev) ==
  If(ev.ulive # 0, "rules not released") \cup
  (IF ev.op = "quad3"
  THEN {"exception " \o x : x \in Rng(ev.yx)} \cup If(~NumIs(ev.y, Rule(ev.lo, ev.hi, ev.d.i, ev.e)), "value of the integral")
       \cup Asked(ev, <<[s |-> 1, lo |-> ev.lo, hi |-> ev.hi, d |-> ev.d, e |-> ev.e]>>)
  ELSE If(~Same(ev.e, ev.after), "expression changed") \cup
       (LET errs == QErrs(ev.e) IN
        IF errs = {} THEN {"exception " \o x : x \in Rng(ev.yx)} \cup If(~NumIs(ev.y, QVal(ev.e)), "value of the integral") \cup Asked(ev, QParts(ev.e, 1))
        ELSE If(ev.ux \notin errs, "a user-defined rule: no refusal") \cup If(ev.y # <<>>, "a number instead of a refusal") \cup {"raises " \o x : x \in Rng(ev.yx) \ errs}))

(* ---------------- C15: vectors ---------------- *)
VecIs(ref, t, len) == t.k = "w" /\ Len(t.e) = len /\ SameVValue(ref, t)
C15(ev) ==
  LET a == ev.a  b == ev.b  s == ev.s  l == Len(a.e)
      Comp(o) == Vec([j \in 1..l |-> Bin(o, a.e[j], b.e[j])])
      Left(o) == Vec([j \in 1..l |-> Bin(o, a.e[j], s)])
      Rght(o) == Vec([j \in 1..l |-> Bin(o, s, a.e[j])])
      Ok(r) == /\ r.x = ""
               /\ CASE r.w = "+" -> VecIs(Comp("+"), r.t, l)
                    [] r.w = "-" -> VecIs(Comp("-"), r.t, l)
                    [] r.w = "*" -> \A q \in 1..KEnv : LET u == VVal(a, Es[q])
                                                           w == VVal(b, Es[q])
                                                       IN Val(r.t, Es[q]) \in {DotTo(u, w, l), Opaque} \/ DotTo(u, w, l) < 0
                    [] r.w = "v*s" -> VecIs(Left("*"), r.t, l)
                    [] r.w = "s*v" -> VecIs(Rght("*"), r.t, l)
                    [] r.w = "v/s" -> VecIs(Left("/"), r.t, l)
                    [] r.w = "s/v" -> VecIs(Rght("/"), r.t, l)
                    [] r.w = "new" -> r.t.k = "w" /\ Len(r.t.e) = l /\ \A j \in 1..l : Zero(r.t.e[j])
                    [] r.w = "copy" -> Same(r.t, a)
                    [] r.w = "setcopy" -> Same(r.t, b)
                    [] r.w = "set0" -> Same(r.t, [a EXCEPT !.e[1] = s])
                    [] OTHER -> FALSE
  IN {r.w \o " of vectors" : r \in {q \in Rng(ev.r) : ~Ok(q)}}
     \cup If(~Same(ev.a, ev.aa) \/ ~Same(ev.b, ev.ba) \/ ~Same(ev.s, ev.sa), "operand changed")

C15x(ev) == CASE ev.op = "vec" -> C15(ev) [] ev.op = "subst" -> C07(ev) [] OTHER -> C05(ev)

(* ---------------- C16: LaTeX ---------------- *)
C16(ev) ==
  IF Ambiguous(ev.c) THEN {}
  ELSE {"text reads as another formula" : o \in {q \in Rng(ev.ot) : ~Reads(q, ev.c, ev.e)}}
       \cup If(~Reads(ev.o2t, ev.c, ev.e2), "second text reads as another formula")
       \cup If(~(LET t == IF ev.e.k = "b" THEN WholeUnit(ev.part, ev.c) ELSE Whole(ev.part, ev.c)
                 IN t.k # "n" /\ SameValue(ev.e, t)), "text in parentheses")
       \cup If(~ReadsTwo(ev.eqt, "", "=", "", ev.c, ev.e, ev.e2), "equation")
       \cup If(~ReadsTwo(ev.ivt, "[", ";", "]", ev.c, ev.e, ev.e2), "interval")

(* a history of translators: cs the customizations every one of them knows,  *)
(* ps whether it has the client's processor, which shows a vector as the sum *)
(* of its components                                                         *)
RECURSIVE SumUp(_), SumAll(_, _)
SumAll(es, j) == IF j = 1 THEN SumUp(es[1]) ELSE Bin("+", SumAll(es, j - 1), SumUp(es[j]))
SumUp(n) == CASE n.k = "w" -> SumAll(n.e, Len(n.e))
              [] n.k = "u" -> [n EXCEPT !.a = SumUp(n.a)]
              [] n.k = "b" -> [n EXCEPT !.a = SumUp(n.a), !.b = SumUp(n.b)]
              [] OTHER -> n
RECURSIVE Play(_, _, _, _)
Play(h, j, cs, ps) ==
  IF j > Len(h) THEN {}
  ELSE LET q == h[j] t == q.t + 1 IN
       CASE q.c = "c" -> Play(h, j + 1, [cs EXCEPT ![t] = Append(@, [n |-> q.e, s |-> q.s])], ps)
         [] q.c \in {"k", "a"} -> Play(h, j + 1, [cs EXCEPT ![t] = cs[q.y + 1]], [ps EXCEPT ![t] = ps[q.y + 1]])
         [] q.c = "n" -> Play(h, j + 1, [cs EXCEPT ![t] = <<>>], [ps EXCEPT ![t] = FALSE])
         [] q.c = "v" -> Play(h, j + 1, cs, [ps EXCEPT ![t] = TRUE])
         [] OTHER -> If(~Ambiguous(cs[t]) /\ (ps[t] \/ ~HasVec(q.e)) /\ ~Reads(q.ts, cs[t], SumUp(q.e)), "text " \o ToString(j) \o " reads as another formula")
                     \cup Play(h, j + 1, cs, ps)
C16x(ev) == IF ev.op = "latexh" THEN Play(ev.h, 1, <<<<>>, <<>>, <<>>>>, <<FALSE, FALSE, FALSE>>) ELSE C16(ev)

(* ---------------- C17: strings ---------------- *)
C17(ev) ==
  If((ev.sa = ev.sb) # Same(ev.a, ev.b), "strings do not tell the trees apart")
  \cup If(ev.ca # ev.sa, "a copy has another string")

(* ---------------- C28: printing ---------------- *)
(* p occurs in t as consecutive elements, from position j *)
RECURSIVE Find(_, _, _), InOrder(_, _, _)
Find(p, t, j) == IF j + Len(p) - 1 > Len(t) THEN 0
                 ELSE IF SubSeq(t, j, j + Len(p) - 1) = p THEN j ELSE Find(p, t, j + 1)
(* the texts of the parts occur in the text of the whole, one after the other *)
InOrder(ps, t, j) == IF ps = <<>> THEN TRUE
                     ELSE LET q == Find(ps[1], t, j) IN q > 0 /\ InOrder(Tail(ps), t, q + Len(ps[1]))
SameList(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Same(a[j], b[j])
PrintedWell(p, w) ==
  If(p.c # p.s, w \o ": a copy prints another text") \cup If(p.z # p.s, w \o ": printing again, another text")
  \cup If(p.st # 1, w \o ": the stream is left changed")
C28(ev) ==
  PrintedWell(ev.ta, "first") \cup PrintedWell(ev.tb, "second")
  \cup If(~InOrder(ev.pa, ev.ta.t, 1) \/ ~InOrder(ev.pb, ev.tb.t, 1), "the parts do not appear in the text")
  \cup If((ev.ta.s = ev.tb.s) # SameList(ev.a, ev.b), "texts do not tell the objects apart")

(* ---------------- C18: symbolic intervals ---------------- *)
RECURSIVE SubInt(_, _)
SubInt(n, ev) ==
  CASE n.k = "u" /\ n.o = "sint" /\ n.p[1] = ev.id ->
         [n EXCEPT !.o = "int", !.p = <<ev.v>>, !.x = <<ev.lo, ev.hi>>, !.a = SubInt(n.a, ev)]
    [] n.k = "u" -> [n EXCEPT !.a = SubInt(n.a, ev)]
    [] n.k = "b" -> [n EXCEPT !.a = SubInt(n.a, ev), !.b = SubInt(n.b, ev)]
    [] OTHER -> n
C18s(ev) ==
  If(~Same(ev.e, ev.after), "original changed")
  \cup {r.w \o ": not the substituted integral" : r \in {q \in Rng(ev.r) : q.x # "" \/ ~Same(q.t, SubInt(ev.e, ev))}}

(* ---------------- C19: coordinate systems ---------------- *)
UV(n) == n.k = "f" /\ n.i = 0
Grad(f, dim) == IF dim = 1 THEN Pd(f, 0) ELSE Vec([j \in 1..dim |-> Pd(f, j - 1)])
RECURSIVE DivTo(_, _), Coord(_, _)
DivTo(f, j) == IF j = 1 THEN Pd(f, 0) ELSE Bin("+", DivTo(f, j - 1), Pd(f, j - 1))
Coord(n, dim) ==
  CASE n.k = "u" /\ n.o = "grad" /\ UV(n.a) -> Grad(n.a, dim)
    [] n.k = "u" /\ n.o = "div" /\ UV(n.a) -> DivTo(n.a, dim)
    [] n.k = "u" -> [n EXCEPT !.a = Coord(n.a, dim)]
    [] n.k = "b" -> [n EXCEPT !.a = Coord(n.a, dim), !.b = Coord(n.b, dim)]
    [] n.k = "w" -> [n EXCEPT !.e = [j \in 1..Len(n.e) |-> Coord(n.e[j], dim)]]
    [] OTHER -> n
C19(ev) ==
  If(~Same(ev.e, ev.after) \/ ~Same(ev.e2, ev.after2), "original changed")
  \cup {r.w \o ": exception " \o r.x : r \in {q \in Rng(ev.r) \cup Rng(ev.q) : q.x # ""}}
  \cup {r.w \o ": value differs" : r \in {q \in Rng(ev.r) : q.x = "" /\ ~SameVValue(Coord(ev.e, ev.dim), q.t)}}
  \cup {r.w \o ": value differs" : r \in {q \in Rng(ev.q) : q.x = "" /\ ~SameVValue(Coord(ev.e2, ev.dim), q.t)}}
  \cup {r.w \o ": operators left" : r \in {q \in Rng(ev.r) : \E o \in {"grad", "div"}, g \in {0, 1} : Occurs(Un(o, Fs(0, g)), q.t)}}

(* ---- C29: what is answered depends on what is asked, not on what was asked before or is being asked by others (Readers.tla) ---- *)
C29(ev) ==
  LET T29 == 1..Len(ev.q)
      All29 == {<<t, i>> : t \in T29, i \in 1..6}
      Request29 == {p \in All29 : p[2] <= Len(ev.q[p[1]])} IN
  (IF ev.race # 0 THEN {"data race"} ELSE {})
  \cup {"thread " \o ToString(p[1]) \o " request " \o ToString(p[2]) \o ": another answer than alone: " \o ev.q[p[1]][p[2]] :
           p \in {x \in Request29 : ev.a[x[1]][x[2]] # ev.alone[x[1]][x[2]]}}
  \cup {"request never answered: " \o ev.q[p[1]][p[2]] : p \in {x \in Request29 : ev.alone[x[1]][x[2]] = "died"}}
  \cup {"the same question, two answers: " \o ev.q[p[1]][p[2]] :
           p \in {x \in Request29 : \E y \in Request29 : ev.q[x[1]][x[2]] = ev.q[y[1]][y[2]] /\ ev.alone[x[1]][x[2]] # ev.alone[y[1]][y[2]]}}
=============================================================================
