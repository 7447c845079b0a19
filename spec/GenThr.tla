------------------------------- MODULE GenThr -------------------------------
(***************************************************************************)
(* The environment of Readers.tla: a few shared expressions (@0 .. @3, the *)
(* second one easily taken for the first, the third made of both) and what *)
(* two to four threads ask about them, in their order.  A scenario draws   *)
(* on one to three families of requests, so that threads meet in them.     *)
(***************************************************************************)
EXTENDS Gen
Ref(r) == "@" \o Num(RandomElement(0..r))
Trees4(t) == Text(t) \o " ; " \o
             (CHOOSE z \in {Text(s) \o " ; " \o Text(Bin(Pick(Arith), t, s)) : s \in {CASE Pick(1..3) = 1 -> Mutate(t, Pick(1..100)) [] OTHER -> Twins(t)}} : TRUE)
             \o " ; " \o Text(Deep(1, Symb))
Families == 1..16
Ask(f) ==
  CASE f = 1 -> "simp " \o Ref(3)
    [] f = 2 -> "diff v " \o Num(Pick(0..1)) \o " 0 " \o Ref(3)
    [] f = 3 -> "diff f 0 0 " \o Ref(3)
    [] f = 4 -> (IF Pick(1..2) = 1 THEN "subst 1 v 0 " \o Ref(3) \o " " \o Ref(3) ELSE "subst 1 " \o Ref(3) \o " c d 2 " \o Ref(3))
    [] f = 5 -> "eq " \o Ref(3) \o " " \o Ref(3)
    [] f = 6 -> "str " \o Ref(3) \o " " \o Ref(3)
    [] f = 7 -> "const " \o Ref(3)
    [] f = 8 -> "eval " \o Point(Pick(1..3)) \o " " \o Ref(3)
    [] f = 9 -> Pick({"trav ", "mani "}) \o Pick(Sets) \o " " \o Ref(3)
    [] f = 10 -> "latex 0 " \o Ref(3) \o " " \o Ref(3)
    [] f = 11 -> "print " \o Pick({"e 1 " \o Ref(3) \o " 1 " \o Ref(3), "n 1 " \o Ref(3) \o " 1 " \o Ref(3), "q 2 " \o Ref(3) \o " " \o Ref(3) \o " 2 " \o Ref(3) \o " " \o Ref(3),
                                   "i 2 " \o Ref(3) \o " " \o Ref(3) \o " 2 " \o Ref(3) \o " " \o Ref(3), "w 2 " \o Ref(3) \o " " \o Ref(3) \o " 3 " \o Ref(3) \o " " \o Ref(3) \o " " \o Ref(3)})
    [] f = 12 -> "coord " \o Num(Pick(1..3)) \o " " \o Ref(3) \o " " \o Ref(3)
    [] f = 13 -> Call(Pick({"quad", "vec", "subint", "latexh", "coord", "latex"}), 0)
    [] OTHER -> "tool " \o Num(Pick(0..11)) \o " " \o Ref(3) \o " " \o Ref(3)
RECURSIVE Asks(_, _), Threads(_, _, _)
Asks(F, k) == Ask(Pick(F)) \o (IF k = 1 THEN "" ELSE " ; " \o Asks(F, k - 1))
Threads(F, k, m) == " | " \o Asks(F, m) \o (IF k = 1 THEN "" ELSE Threads(F, k - 1, m))
Scenario(i) == CHOOSE z \in {"thr " \o Trees4(t) \o Threads(F, Pick(2..4), Pick(2..6)) :
                t \in {Deep(2, Pick({[Scalar EXCEPT !.nv = 2], Symb, Ratio}))}, F \in {{Pick(Families), Pick(Families), Pick(Families)}}} : TRUE
ThrNext == n < Skip + Count /\ n' = n + 1 /\ \E s \in {Scenario(n)} : PrintT("GEN " \o s)
=============================================================================
