------------------------------- MODULE CtProps -------------------------------
(***************************************************************************)
(* Verdicts on the compile-time part of the library.  ev.e is the formula   *)
(* that was written; ev.r the types obtained in different ways (as trees);  *)
(* ev.y numbers obtained at the point ev.p.                                 *)
(***************************************************************************)
EXTENDS Props, Poly

(* constants of the two worlds: by value *)
RECURSIVE SameShape(_, _)
SameShape(m, n) ==
  /\ m.k = n.k
  /\ CASE m.k = "c" -> m.v = n.v /\ m.z = n.z /\ m.v >= 0
       [] m.k = "b" -> m.o = n.o /\ SameShape(m.a, n.a) /\ SameShape(m.b, n.b)
       [] m.k = "u" -> /\ m.o = n.o /\ m.p = n.p /\ Len(m.x) = Len(n.x) /\ \A j \in 1..Len(m.x) : SameShape(m.x[j], n.x[j])
                       /\ SameShape(m.a, n.a)
       [] OTHER -> Same(m, n)
By(ev, w) == {r \in Rng(ev.r) : r.w = w}
Bads(ev, w, P1(_), what) == {w \o ": " \o what : r \in {q \in By(ev, w) : ~P1(q.t)}}

PointOf(p) == [x |-> [i \in 1..NVars |-> IF i <= Len(p) THEN (p[i] + P) % P ELSE 0], s |-> 5]
NumsOk(ev) ==
  LET v == Val(ev.e, PointOf(ev.p)) IN
  IF v < 0 THEN {}
  ELSE {y.w2 \o ": value" : y \in {q \in Rng(ev.y) : q.v # v /\ q.w # v /\ q.w # Opaque}} \cup {x \o ": exception" : x \in Rng(ev.yx)}

(* ---------------- C02: formulas in client code ---------------- *)
Operands(ev) == [j \in 1..Len(ev.a) |-> (SelectSeq(ev.r, LAMBDA q : q.w = "operand"))[j].t]
C02(ev) ==
  {r.w \o ": denotes another formula" : r \in {q \in Rng(ev.r) : q.w # "operand" /\ ~SameValue(ev.e, q.t)}}
  \cup {"operand changed" : j \in {q \in 1..Len(ev.a) : ~(Same(ev.a[q], Operands(ev)[q]) \/ SameShape(ev.a[q], Operands(ev)[q]))}}
  \cup NumsOk(ev)

(* ---------------- C18: equations, intervals, integrals ---------------- *)
AsBuilt(s, t) == Same(s, t) \/ SameShape(s, t)
C18x(ev) ==
  IF ev.op = "subint" THEN C18s(ev)
  ELSE {r.w \o ": holds something else" : r \in {q \in Rng(ev.r) :
          IF q.w = "integral" THEN ~AsBuilt(ev.e, q.t)
          ELSE \E j \in 1..Len(ev.a) : q.w \in {ToString(j - 1) \o x : x \in {" built", " copied", " assigned", " self-assigned", " original", " argument", " integrand"}} /\ ~AsBuilt(ev.a[j], q.t)}}

(* ---------------- C05: every kind of operand and variable ---------------- *)
C05x(ev) ==
  IF ev.op # "df" THEN C05(ev)
  ELSE {"operand changed" : j \in {q \in 1..Len(ev.a) : ~(Same(ev.a[q], Operands(ev)[q]) \/ SameShape(ev.a[q], Operands(ev)[q]))}}
       \cup (IF NoRule(ev.e, ev.d) \/ HasFs(ev.e) \/ HasSym(ev.e) THEN {}
             ELSE {r.w \o ": wrong derivative" : r \in {q \in Rng(ev.r) : q.w # "operand" /\ ~IsDerivative(ev.e, ev.d, q.t)}})

(* ---------------- C12: points with too few components ---------------- *)
C12x(ev) ==
  IF ev.op # "ctevx" THEN C12(ev)
  ELSE LET t == (CHOOSE r \in Rng(ev.r) : r.w = "built").t       \* operators may have cancelled equal operands
           Bad12(y) == LET errs == Errs(t, y.m) IN IF errs = {} THEN y.x # "" ELSE y.x \notin errs
       IN {q.w \o ": " \o (IF q.x = "" THEN "a number where evaluation is impossible" ELSE "raises " \o q.x)
            : q \in {y \in Rng(ev.z) : Bad12(y)}}

(* ---------------- C20: construction and evaluation ---------------- *)
Whole20 == {"compile time", "compile time number", "compile time 1", "compile time 2"}
C20(ev) ==
  LET v == Val(ev.e, PointOf(ev.p)) IN
  Bads(ev, "built", LAMBDA t : SameValue(ev.e, t), "denotes another formula")
  \cup NumsOk(ev)
  \cup (IF v < 0 THEN {} ELSE {r.w \o ": value" : r \in {q \in Rng(ev.r) : q.w \in Whole20 /\ (~ConstArith(q.t) \/ Val(q.t, Es[1]) \notin {v, Opaque})}})

(* ---------------- C21: simplification ---------------- *)
Lit0(n) == n.k = "c" /\ n.z = 0
Lit1(n) == n.k = "c" /\ n.z = 1
(* an integer or a fraction *)
Number(n) == n.k = "c" \/ (n.k = "b" /\ n.o = "/" /\ n.a.k = "c" /\ n.b.k = "c")
RECURSIVE CtNormal(_)
CtNormal(n) ==
  n.k # "b"
  \/ (/\ ~(n.o = "+" /\ (Lit0(n.a) \/ Lit0(n.b)))
      /\ ~(n.o = "*" /\ (Lit0(n.a) \/ Lit0(n.b) \/ Lit1(n.a) \/ Lit1(n.b)))
      /\ (ConstArith(n) => Number(n))
      /\ CtNormal(n.a) /\ CtNormal(n.b))
Again(ev, what) == {what : r \in {q \in By(ev, "again") \cup By(ev, "fn") : \E z \in By(ev, "meta") : ~Same(q.t, z.t)}}
C21(ev) ==
  Bads(ev, "meta", LAMBDA t : SameValue(ev.e, t), "value differs")
  \cup Bads(ev, "meta", CtNormal, "not reduced")
  \cup {r.w \o ": another type" : r \in {q \in By(ev, "again") \cup By(ev, "fn") : \E z \in By(ev, "meta") : ~Same(q.t, z.t)}}

(* ---------------- C22: expansion ---------------- *)
RECURSIVE SumIn(_)
SumIn(n) == n.k = "b" /\ (n.o \in {"+", "-"} \/ SumIn(n.a) \/ (n.o = "*" /\ SumIn(n.b)))
RECURSIVE Expanded(_)
Expanded(n) == n.k # "b" \/ (/\ Expanded(n.a)
                             /\ (n.o = "/" \/ Expanded(n.b))
                             /\ ~(n.o = "*" /\ (SumIn(n.a) \/ SumIn(n.b))))
C22(ev) ==
  {r.w \o ": value differs" : r \in {q \in Rng(ev.r) : ~SameValue(ev.e, q.t)}}
  \cup {r.w \o ": a sum is left in a product" : r \in {q \in Rng(ev.r) : ~Expanded(q.t)}}

(* ---------------- C23: substitution ---------------- *)
C23(ev) == {r.w \o ": not the substituted type" : r \in {q \in Rng(ev.r) : ~Same(q.t, Subst(ev.e, <<ev.s>>, <<ev.q>>))}}

(* ---------------- C24: differentiation ---------------- *)
C24(ev) == {r.w \o ": wrong derivative" : r \in {q \in Rng(ev.r) : ~IsDerivative(ev.e, ev.d, q.t)}}

(* ---------------- C25: integration ---------------- *)
C25(ev) ==
  {r.w \o ": wrong integral" : r \in {q \in Rng(ev.r) : ~IsIntegral(ev.e, ev.d, ev.lo, ev.hi, q.t)}}
  \cup {r.w \o ": depends on the integration variable" : r \in {q \in Rng(ev.r) : Occurs(ev.d, q.t)}}

(* ---------------- C26: coefficients ---------------- *)
C26(ev) ==
  LET cs == {q \in Rng(ev.r) : q.w \in {"coef", "coef fn"}}
      rs == Rng(ev.r) \ cs
  IN (IF ~PolyOk(ev.e, ev.d) THEN {}
      ELSE {r.w \o ": value" : r \in {q \in rs : ~CoefIs(ev.e, ev.d, 1, q.t)}}
           \cup {r.w \o ": contains the factor" : r \in {q \in rs : Occurs(ev.d, q.t)}})
     \cup (IF ~PolyOk(ev.e, ev.d) THEN {} ELSE {r.w \o ": value" : r \in {q \in cs : ~CoefPolyIs(ev.e, ev.d, q.t)}})
     \cup (IF ~PolyOk(ev.e, ev.d) \/ Written(ev.e, ev.d) > 1 THEN {}
           ELSE {r.w \o ": contains the factor" : r \in {q \in cs : Occurs(ev.d, q.t)}})

(* ---------------- C27: conversion to the run time ---------------- *)
C27(ev) ==
  {r.w \o ": another tree" : r \in {q \in Rng(ev.r) : ~SameShape(IF q.w = "unary" THEN Un("id", ev.e) ELSE ev.e, q.t)}} \cup NumsOk(ev)
=============================================================================
