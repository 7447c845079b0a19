------------------------------ MODULE Readers -------------------------------
(***************************************************************************)
(* Several threads that ask things about the same objects.  An operation   *)
(* reads the cells of its argument one by one, in any order, and then      *)
(* answers.  Kind "pure" keeps what it needs to itself.  Kind "memo" leaves *)
(* its last answer in shared memory and looks there first; kind "locked"   *)
(* does so under a lock but knows its argument only by its size.           *)
(* Checked: with pure operations no two threads ever conflict and every    *)
(* answer is the one given to a thread that is alone (hence the           *)
(* conformance check need only find one schedule without a conflict and    *)
(* compare the answers); with the other kinds TLC finds the schedule that  *)
(* breaks it (the configurations ReadersMemo and ReadersLocked).           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Kind, Threads, Length
VARIABLES prog, at, todo, sum, ans, memo, holder
vars == <<prog, at, todo, sum, ans, memo, holder>>
(* two objects of the same size, one of another *)
Objects == [a |-> {1, 2}, b |-> {2, 3}, c |-> {3}]
Cell == <<5, 7, 11>>
Names == {"a", "b", "c"}
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN Cell[m] + SumOf(S \ {m})
Alone(o) == SumOf(Objects[o])
KeyOf(o) == IF Kind = "locked" THEN Cardinality(Objects[o]) ELSE o
Init ==
  /\ prog \in [Threads -> [1..Length -> Names]]
  /\ at = [t \in Threads |-> "begin"] /\ todo = [t \in Threads |-> {}] /\ sum = [t \in Threads |-> 0]
  /\ ans = [t \in Threads |-> <<>>] /\ memo = [key |-> IF Kind = "locked" THEN 0 ELSE "none", val |-> 0]
  /\ holder = {}
Obj(t) == prog[t][Len(ans[t]) + 1]
Busy(t) == Len(ans[t]) < Length
Begin(t) ==
  /\ Busy(t) /\ at[t] = "begin"
  /\ Kind = "locked" => holder = {}
  /\ holder' = IF Kind = "locked" THEN {t} ELSE holder
  /\ at' = [at EXCEPT ![t] = IF Kind = "pure" THEN "read" ELSE "key"]
  /\ todo' = [todo EXCEPT ![t] = Objects[Obj(t)]] /\ sum' = [sum EXCEPT ![t] = 0]
  /\ UNCHANGED <<prog, ans, memo>>
ReadKey(t) ==
  /\ Busy(t) /\ at[t] = "key" /\ at' = [at EXCEPT ![t] = IF memo.key = KeyOf(Obj(t)) THEN "val" ELSE "read"]
  /\ UNCHANGED <<prog, todo, sum, ans, memo, holder>>
ReadVal(t) ==
  /\ Busy(t) /\ at[t] = "val" /\ sum' = [sum EXCEPT ![t] = memo.val] /\ at' = [at EXCEPT ![t] = "answer"]
  /\ UNCHANGED <<prog, todo, ans, memo, holder>>
Read(t) ==
  /\ Busy(t) /\ at[t] = "read" /\ todo[t] # {}
  /\ \E c \in todo[t] : todo' = [todo EXCEPT ![t] = @ \ {c}] /\ sum' = [sum EXCEPT ![t] = @ + Cell[c]]
  /\ UNCHANGED <<prog, at, ans, memo, holder>>
Done(t) ==
  /\ Busy(t) /\ at[t] = "read" /\ todo[t] = {} /\ at' = [at EXCEPT ![t] = IF Kind = "pure" THEN "answer" ELSE "putkey"]
  /\ UNCHANGED <<prog, todo, sum, ans, memo, holder>>
PutKey(t) ==
  /\ Busy(t) /\ at[t] = "putkey" /\ memo' = [memo EXCEPT !.key = KeyOf(Obj(t))] /\ at' = [at EXCEPT ![t] = "putval"]
  /\ UNCHANGED <<prog, todo, sum, ans, holder>>
PutVal(t) ==
  /\ Busy(t) /\ at[t] = "putval" /\ memo' = [memo EXCEPT !.val = sum[t]] /\ at' = [at EXCEPT ![t] = "answer"]
  /\ UNCHANGED <<prog, todo, sum, ans, holder>>
Answer(t) ==
  /\ Busy(t) /\ at[t] = "answer" /\ ans' = [ans EXCEPT ![t] = Append(@, sum[t])] /\ at' = [at EXCEPT ![t] = "begin"]
  /\ holder' = holder \ {t} /\ UNCHANGED <<prog, todo, sum, memo>>
Next == \E t \in Threads : Begin(t) \/ ReadKey(t) \/ ReadVal(t) \/ Read(t) \/ Done(t) \/ PutKey(t) \/ PutVal(t) \/ Answer(t)
Spec == Init /\ [][Next]_vars
(* what a thread is about to do to shared memory that is not constant *)
Reads(t) == Busy(t) /\ at[t] \in {"key", "val"}
Writes(t) == Busy(t) /\ at[t] \in {"putkey", "putval"}
NoConflict == \A t, s \in Threads : t # s => ~(Writes(t) /\ (Writes(s) \/ Reads(s)))
AnswersAlone == \A t \in Threads : \A i \in 1..Len(ans[t]) : ans[t][i] = Alone(prog[t][i])
(* a thread that asks always gets an answer *)
NeverStuck == (\E t \in Threads : Busy(t)) => ENABLED Next
=============================================================================
