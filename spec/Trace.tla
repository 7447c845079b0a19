------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates a recorded sequence of calls: every recorded call must be a   *)
(* step the specification allows.  Rejected calls are printed and skipped  *)
(* so that the rest of the recording is checked too.                       *)
(***************************************************************************)
EXTENDS CtProps, IOUtils, Json

Property == IOEnv.TRACE_PROP
Log == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l, rejected
Verdict(ev) ==
  IF ev.bad # "" THEN {ev.bad}
  ELSE CASE Property = "C01" -> C01(ev)
         [] Property = "C02" -> C02(ev)
         [] Property = "C03" -> C03(ev)
         [] Property = "C04" -> C04(ev)
         [] Property = "C05" -> C05x(ev)
         [] Property = "C06" -> C06(ev)
         [] Property = "C07" -> C07(ev)
         [] Property = "C10" -> C10(ev)
         [] Property = "C11" -> C11(ev)
         [] Property = "C12" -> C12x(ev)
         [] Property = "C13" -> C13(ev)
         [] Property = "C14" -> C14(ev)
         [] Property = "C15" -> C15x(ev)
         [] Property = "C16" -> C16x(ev)
         [] Property = "C17" -> C17(ev)
         [] Property = "C18" -> C18x(ev)
         [] Property = "C19" -> C19(ev)
         [] Property = "C20" -> IF ev.op = "op" THEN C02(ev) ELSE C20(ev)
         [] Property = "C21" -> C21(ev)
         [] Property = "C22" -> C22(ev)
         [] Property = "C23" -> C23(ev)
         [] Property = "C24" -> C24(ev)
         [] Property = "C25" -> C25(ev)
         [] Property = "C26" -> C26(ev)
         [] Property = "C27" -> C27(ev)
         [] Property = "C28" -> C28(ev)
         [] Property = "C29" -> C29(ev)

Init == l = 1 /\ rejected = 0
Step == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ \E v \in {Verdict(Log[l])} :
             IF v = {} THEN rejected' = rejected
             ELSE /\ rejected' = rejected + 1
                  /\ PrintT("REJECT " \o ToString(Log[l].n) \o " " \o ToString(v))
Spec == Init /\ [][Step]_<<l, rejected>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
