------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expression trees (the abstract state of every runtime expression) and   *)
(* the structural operations the API offers on them.                       *)
(*                                                                         *)
(* node  k = "c"  constant      t: scalar type, h: exact value as text,    *)
(*                              v,f,c: value in the field (see Sem)        *)
(*         "v"  variable        i: number                                  *)
(*         "f"  function symbol i: number, g: tag                          *)
(*         "u"  unary           o: operation, p: parameters (numbers),     *)
(*                              x: parameters (expressions), a: operand    *)
(*         "b"  binary          o: operation, a, b: operands               *)
(*         "w"  vector          e: components                              *)
(*         "n"  empty                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Funcs    == {"id", "exp", "sin", "cos", "tan", "fabs", "sqrt", "log", "log10"}
Symbolic == {"grad", "div", "pd", "int", "sint"}
Arith    == {"+", "-", "*", "/"}

IsC(n) == n.k = "c"
IsLit(n, h) == n.k = "c" /\ n.h = h /\ n.t = "d"
Zero(n) == n.k = "c" /\ n.z = 0
One(n)  == n.k = "c" /\ n.z = 1

Bin(o, a, b) == [k |-> "b", o |-> o, a |-> a, b |-> b]
Un(o, a)     == [k |-> "u", o |-> o, p |-> <<>>, x |-> <<>>, a |-> a]
Var(i)       == [k |-> "v", i |-> i]
Fs(i, g)     == [k |-> "f", i |-> i, g |-> g]
Pd(a, i)     == [k |-> "u", o |-> "pd", p |-> <<i>>, x |-> <<>>, a |-> a]
Vec(e)       == [k |-> "w", e |-> e]
(* constants with value z, z a small integer *)
Lit(z)       == [k |-> "c", t |-> "d", z |-> z]

RECURSIVE Size(_)
Size(n) == CASE n.k = "u" -> 1 + Size(n.a)
             [] n.k = "b" -> 1 + Size(n.a) + Size(n.b)
             [] n.k = "w" -> LET RECURSIVE S(_)
                                 S(i) == IF i = 0 THEN 1 ELSE Size(n.e[i]) + S(i - 1)
                             IN S(Len(n.e))
             [] OTHER -> 1

(* the same tree: same nodes, parameters and operands.  Two constants are   *)
(* the same if they have the same type and the same value.                  *)
RECURSIVE Same(_, _)
Same(m, n) ==
  /\ m.k = n.k
  /\ CASE m.k = "c" -> m.t = n.t /\ m.h = n.h
       [] m.k = "v" -> m.i = n.i
       [] m.k = "f" -> m.i = n.i /\ m.g = n.g
       [] m.k = "u" -> /\ m.o = n.o /\ m.p = n.p /\ Len(m.x) = Len(n.x)
                       /\ \A j \in 1..Len(m.x) : Same(m.x[j], n.x[j])
                       /\ Same(m.a, n.a)
       [] m.k = "b" -> m.o = n.o /\ Same(m.a, n.a) /\ Same(m.b, n.b)
       [] m.k = "w" -> /\ Len(m.e) = Len(n.e)
                       /\ \A j \in 1..Len(m.e) : Same(m.e[j], n.e[j])
       [] OTHER -> TRUE

(* same kind of node (shallow equality) *)
SameKind(m, n) == m.k = n.k /\ (m.k = "c" => m.t = n.t)

(* does m occur in n (including inside vectors, not inside parameters) *)
RECURSIVE Occurs(_, _)
Occurs(m, n) ==
  \/ Same(m, n)
  \/ CASE n.k = "u" -> Occurs(m, n.a)
       [] n.k = "b" -> Occurs(m, n.a) \/ Occurs(m, n.b)
       [] n.k = "w" -> \E j \in 1..Len(n.e) : Occurs(m, n.e[j])
       [] OTHER -> FALSE

(* simultaneous top-down substitution: ss, rr sequences of equal length *)
FirstMatch(n, ss) ==
  IF \E j \in 1..Len(ss) : Same(n, ss[j])
  THEN CHOOSE j \in 1..Len(ss) : Same(n, ss[j]) /\ \A i \in 1..(j-1) : ~Same(n, ss[i])
  ELSE 0
RECURSIVE Subst(_, _, _)
Subst(n, ss, rr) ==
  LET m == FirstMatch(n, ss) IN
  IF m > 0 THEN rr[m]
  ELSE CASE n.k = "u" -> [n EXCEPT !.a = Subst(n.a, ss, rr)]
         [] n.k = "b" -> [n EXCEPT !.a = Subst(n.a, ss, rr), !.b = Subst(n.b, ss, rr)]
         [] n.k = "w" -> [n EXCEPT !.e = [j \in 1..Len(n.e) |-> Subst(n.e[j], ss, rr)]]
         [] OTHER -> n

(* constant as far as the structure tells: constants under arithmetic *)
RECURSIVE ConstArith(_)
ConstArith(n) == CASE n.k = "c" -> TRUE
                   [] n.k = "b" -> ConstArith(n.a) /\ ConstArith(n.b)
                   [] OTHER -> FALSE
(* no variable, function symbol, vector or symbolic operation anywhere *)
RECURSIVE Closed(_)
Closed(n) == CASE n.k = "c" -> TRUE
               [] n.k = "u" -> n.o \in Funcs /\ Closed(n.a)
               [] n.k = "b" -> Closed(n.a) /\ Closed(n.b)
               [] OTHER -> FALSE

(* a binary node at which a simplification step applies *)
Redex(n) ==
  /\ n.k = "b"
  /\ \/ ConstArith(n.a) /\ ConstArith(n.b)
     \/ n.o = "+" /\ (Zero(n.a) \/ Zero(n.b))
     \/ n.o = "-" /\ (Zero(n.a) \/ Zero(n.b))
     \/ n.o = "*" /\ (Zero(n.a) \/ Zero(n.b) \/ One(n.a) \/ One(n.b))
     \/ n.o = "*" /\ n.a.k = "w" /\ n.b.k = "w"
     \/ n.o = "/" /\ (Zero(n.a) \/ One(n.b))
(* normal form: no redex anywhere outside vectors and operator parameters *)
RECURSIVE Normal(_)
Normal(n) == CASE n.k = "u" -> Normal(n.a)
               [] n.k = "b" -> ~Redex(n) /\ Normal(n.a) /\ Normal(n.b)
               [] OTHER -> TRUE

(* ------------------------------------------------------------------ *)
(* a functor is described by the kinds of nodes it selects               *)
Key(n) == IF n.k = "b" THEN n.o ELSE n.k
Sel(n, ks) == "all" \in ks \/ Key(n) \in ks
(* traversal order: the nodes a traversal functor is called on; ks are the *)
(* binary nodes it steps into                                              *)
RECURSIVE Visit(_, _)
Visit(n, ks) ==
  CASE n.k = "b" -> IF Sel(n, ks) THEN Visit(n.a, ks) \o <<n>> \o Visit(n.b, ks) ELSE <<n>>
    [] n.k = "u" -> <<n>> \o Visit(n.a, ks)
    [] OTHER -> <<n>>
(* manipulation: the selected nodes are replaced by Mark(node), topmost first *)
Mark(n) == Pd(n, 9)
(* the nodes that are replaced: topmost first *)
RECURSIVE Replaced(_, _)
Replaced(n, ks) ==
  IF Sel(n, ks) THEN <<n>>
  ELSE CASE n.k = "b" -> Replaced(n.a, ks) \o Replaced(n.b, ks)
         [] n.k = "u" -> Replaced(n.a, ks)
         [] OTHER -> <<>>
RECURSIVE Manip(_, _)
Manip(n, ks) ==
  IF Sel(n, ks) THEN Mark(n)
  ELSE CASE n.k = "b" -> [n EXCEPT !.a = Manip(n.a, ks), !.b = Manip(n.b, ks)]
         [] n.k = "u" -> [n EXCEPT !.a = Manip(n.a, ks)]
         [] OTHER -> n
=============================================================================
