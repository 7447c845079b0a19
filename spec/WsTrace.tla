------------------------------ MODULE WsTrace ------------------------------
(* Recorded histories of a client's workspace against Workspace.tla.        *)
EXTENDS Workspace, IOUtils, Json
Property == IOEnv.TRACE_PROP
Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES h, s, st
vars == <<h, s, st>>
Say(n, bad) == IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(n) \o " " \o ToString(bad))
Init == h = 1 /\ s = 1 /\ st = Empty
(* one command *)
Do == /\ h <= Len(Log) /\ Log[h].bad = "" /\ s <= Len(Log[h].ev)
      /\ LET ev == Log[h].ev[s] s2 == [z \in Slots |-> IF z \in DOMAIN ev.ch THEN ev.ch[z] ELSE st[z]] IN
         /\ (Property = "C08") => \E b \in {StepBad(ev.q, ev.x, st, s2) \cup AnswerBad(ev.q, st, ev.a) \cup LookBad(ev.l)} : Say(Log[h].n, {"step " \o ToString(s) \o ": " \o z : z \in b})
         /\ st' = s2
      /\ s' = s + 1 /\ h' = h
(* the client destroys all objects *)
End == /\ h <= Len(Log) /\ (Log[h].bad # "" \/ s > Len(Log[h].ev))
       /\ Say(Log[h].n, IF Log[h].bad # "" THEN {Log[h].bad} ELSE IF Property = "C09" /\ Log[h].left # 0 THEN {ToString(Log[h].left) \o " allocations left"} ELSE {})
       /\ h' = h + 1 /\ s' = 1 /\ st' = Empty
Spec == Init /\ [][Do \/ End]_vars
RECURSIVE Steps(_)
Steps(j) == IF j > Len(Log) THEN 0 ELSE 1 + (IF Log[j].bad # "" THEN 0 ELSE Len(Log[j].ev)) + Steps(j + 1)
AllConsumed == TLCGet("stats").diameter - 1 = Steps(1)
=============================================================================
