----------------------------- MODULE Ownership -----------------------------
(***************************************************************************)
(* How the values of Workspace.tla are kept in memory: an object owns the   *)
(* root of a tree of nodes, a node owns its operands.  An API call first    *)
(* builds its result in temporaries (cloning what it uses), then installs   *)
(* it and releases what the target owned before; an exception releases the  *)
(* temporaries instead.  Every step is one allocation, clone or release.    *)
(*                                                                         *)
(* Checked: no node is shared, lost or released twice at any time (C09);    *)
(* the target finally holds the value the call stands for and every other   *)
(* object what it held, also when the target is an operand or when a part   *)
(* of an object is assigned to the object itself (C08).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Objs, Ids, MaxTree
Free == [k |-> "free"]
Leaf(l) == [k |-> "l", l |-> l]
Node(a, b) == [k |-> "b", a |-> a, b |-> b]
Nil == 0

VARIABLES heap,   \* Ids -> Free, leaf or node with two operands
          obj,    \* Objs -> Ids or Nil
          tmp,    \* roots of temporaries
          call,   \* the call in progress
          want    \* the value its target is to hold
vars == <<heap, obj, tmp, call, want>>
Idle == [c |-> "idle"]

(* values: trees without identities *)
NoVal == <<"n">>
RECURSIVE TreeV(_, _), Nodes(_, _), SizeV(_)
TreeV(h, i) == IF i = Nil THEN NoVal ELSE IF h[i].k = "l" THEN <<"l", h[i].l>> ELSE IF h[i].k = "b" THEN <<"b", TreeV(h, h[i].a), TreeV(h, h[i].b)>> ELSE <<"freed">>
Nodes(h, i) == IF i = Nil THEN {} ELSE IF h[i].k = "b" THEN {i} \cup Nodes(h, h[i].a) \cup Nodes(h, h[i].b) ELSE {i}
SizeV(v) == IF v[1] = "b" THEN 1 + SizeV(v[2]) + SizeV(v[3]) ELSE 1
Value(x) == TreeV(heap, obj[x])

(* a copy of tree i in fresh nodes: <<heap, root>> *)
FreeIds(h) == {i \in Ids : h[i].k = "free"}
Min(S) == CHOOSE m \in S : \A q \in S : m <= q
RECURSIVE CloneIn(_, _), Release(_, _)
CloneIn(h, i) ==
  IF h[i].k = "l" THEN LET m == Min(FreeIds(h)) IN <<[h EXCEPT ![m] = h[i]], m>>
  ELSE LET a == CloneIn(h, h[i].a)
           b == CloneIn(a[1], h[i].b)
           m == Min(FreeIds(b[1]))
       IN <<[b[1] EXCEPT ![m] = Node(a[2], b[2])], m>>
Release(h, i) == IF i = Nil THEN h ELSE [j \in Ids |-> IF j \in Nodes(h, i) THEN Free ELSE h[j]]
Room(n) == Cardinality(FreeIds(heap)) >= n

Init == heap = [i \in Ids |-> Free] /\ obj = [x \in Objs |-> Nil] /\ tmp = <<>> /\ call = Idle /\ want = NoVal

(* ---- calls ---- *)
Begin(c, w) == call = Idle /\ call' = c /\ want' = w /\ UNCHANGED <<heap, obj, tmp>>
Construct == \E x \in Objs, l \in {"x", "1"} : Begin([c |-> "leaf", x |-> x, l |-> l], <<"l", l>>)
Assign == \E x, y \in Objs : obj[y] # Nil /\ Begin([c |-> "copy", x |-> x, src |-> <<obj[y]>>], Value(y))
(* a part of an object, possibly of the target itself *)
Part == \E x, y \in Objs : obj[y] # Nil /\ heap[obj[y]].k = "b" /\ \E p \in {heap[obj[y]].a, heap[obj[y]].b} :
          Begin([c |-> "copy", x |-> x, src |-> <<p>>], TreeV(heap, p))
Combine == \E x, y, z \in Objs : obj[y] # Nil /\ obj[z] # Nil /\ SizeV(Value(y)) + SizeV(Value(z)) < MaxTree /\
          Begin([c |-> "comb", x |-> x, src |-> <<obj[y], obj[z]>>], <<"b", Value(y), Value(z)>>)
(* an operation that visits both operands and may refuse the second *)
Destroy == \E x \in Objs : call = Idle /\ obj[x] # Nil /\ heap' = Release(heap, obj[x]) /\ obj' = [obj EXCEPT ![x] = Nil] /\ UNCHANGED <<tmp, call, want>>
Swap == \E x, y \in Objs : call = Idle /\ x # y /\ obj' = [obj EXCEPT ![x] = obj[y], ![y] = obj[x]] /\ UNCHANGED <<heap, tmp, call, want>>

(* ---- steps of a call ---- *)
Alloc == /\ call.c = "leaf" /\ Room(1)
         /\ \E m \in {Min(FreeIds(heap))} : heap' = [heap EXCEPT ![m] = Leaf(call.l)] /\ tmp' = <<m>>
         /\ call' = [c |-> "install", x |-> call.x] /\ UNCHANGED <<obj, want>>
Clone == /\ call.c \in {"copy", "comb"} /\ call.src # <<>>
         /\ Room(Cardinality(Nodes(heap, Head(call.src))))
         /\ \E q \in {CloneIn(heap, Head(call.src))} : heap' = q[1] /\ tmp' = Append(tmp, q[2])
         /\ call' = [call EXCEPT !.src = Tail(@)] /\ UNCHANGED <<obj, want>>
Join == /\ call.c = "comb" /\ call.src = <<>> /\ Len(tmp) = 2 /\ Room(1)
        /\ \E m \in {Min(FreeIds(heap))} : heap' = [heap EXCEPT ![m] = Node(tmp[1], tmp[2])] /\ tmp' = <<m>>
        /\ call' = [c |-> "install", x |-> call.x] /\ UNCHANGED <<obj, want>>
Ready == call.c = "copy" /\ call.src = <<>> /\ call' = [c |-> "install", x |-> call.x] /\ UNCHANGED <<heap, obj, tmp, want>>
(* an exception while the result is being built *)
Throw == /\ call.c \in {"copy", "comb"}
         /\ \/ tmp = <<>> /\ call' = Idle /\ heap' = heap /\ tmp' = tmp
            \/ tmp # <<>> /\ heap' = Release(heap, Head(tmp)) /\ tmp' = Tail(tmp) /\ call' = IF Len(tmp) = 1 THEN Idle ELSE [c |-> "unwind", x |-> call.x]
         /\ UNCHANGED <<obj, want>>
Unwind == /\ call.c = "unwind"
          /\ IF tmp = <<>> THEN call' = Idle /\ UNCHANGED <<heap, tmp>>
             ELSE heap' = Release(heap, Head(tmp)) /\ tmp' = Tail(tmp) /\ call' = call
          /\ UNCHANGED <<obj, want>>
Install == /\ call.c = "install" /\ obj' = [obj EXCEPT ![call.x] = tmp[1]] /\ tmp' = <<obj[call.x]>>
           /\ call' = [call EXCEPT !.c = "release"] /\ UNCHANGED <<heap, want>>
Cleanup == /\ call.c = "release" /\ heap' = Release(heap, tmp[1]) /\ tmp' = <<>> /\ call' = Idle /\ UNCHANGED <<obj, want>>
Next == Construct \/ Assign \/ Part \/ Combine \/ Destroy \/ Swap \/ Alloc \/ Clone \/ Join \/ Ready \/ Throw \/ Unwind \/ Install \/ Cleanup
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Roots == [o |-> {<<"o", x>> : x \in {q \in Objs : obj[q] # Nil}}, t |-> {<<"t", j>> : j \in {q \in 1..Len(tmp) : tmp[q] # Nil}}]
Owners(i) == Cardinality({x \in Objs : obj[x] = i}) + Cardinality({j \in 1..Len(tmp) : tmp[j] = i})
             + Cardinality({j \in Ids : heap[j].k = "b" /\ heap[j].a = i}) + Cardinality({j \in Ids : heap[j].k = "b" /\ heap[j].b = i})
OneOwner == \A i \in Ids : Owners(i) = IF heap[i].k = "free" THEN 0 ELSE 1
(* no cycles: everything in memory hangs off an object or a temporary *)
Reachable == UNION ({Nodes(heap, obj[x]) : x \in Objs} \cup {Nodes(heap, tmp[j]) : j \in 1..Len(tmp)})
NothingLost == {i \in Ids : heap[i].k # "free"} = Reachable
(* value semantics *)
Done == call.c = "release" /\ call'.c = "idle"
Stored == [][call.c = "release" => TreeV(heap', obj'[call.x]) = want]_vars
Frame == [][\A x \in Objs : (call.c = "idle" /\ call'.c = "idle") \/ (call.c \in {"install"} /\ call.x = x) \/ TreeV(heap', obj'[x]) = TreeV(heap, obj[x])]_vars
(* destroying or exchanging objects *)
Others == [][(call.c = "idle" /\ call'.c = "idle") => \A x \in Objs : TreeV(heap', obj'[x]) = TreeV(heap, obj[x]) \/ obj'[x] = Nil \/ \E y \in Objs \ {x} : TreeV(heap', obj'[x]) = TreeV(heap, obj[y])]_vars
=============================================================================
