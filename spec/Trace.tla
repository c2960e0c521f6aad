-------------------------------- MODULE Trace --------------------------------
(* Observations recorded from the real library, one per line of the file named *)
(* by TRACE, checked against the properties.  The file is walked in SEGMENTS   *)
(* parts at once; a step is possible only if the verdict on the observation is *)
(* TRUE, so the walk gets to the end of every part exactly if all are accepted.*)
EXTENDS Props, TLC, Json, IOUtils

Lines    == ndJsonDeserialize(IOEnv.TRACE)
Segments == atoi(IOEnv.SEGMENTS)
First(g) == ((g - 1) * Len(Lines)) \div Segments + 1
Last(g)  == (g * Len(Lines)) \div Segments

VARIABLES g, l     \* part, next line
vars == <<g, l>>

Verdict(p, o) ==
  CASE p = "C01" -> P_C01(o)  [] p = "C02" -> P_C02(o)  [] p = "C03" -> P_C03(o)  [] p = "C04" -> P_C04(o)
    [] p = "C04b" -> P_C04b(o) [] p = "C05" -> P_C05(o) [] p = "C06" -> P_C06(o)  [] p = "C07" -> P_C07(o)
    [] p = "C08" -> P_C08(o)  [] p = "C09" -> P_C09(o)  [] p = "C09f" -> P_C09f(o) [] p = "C10" -> P_C10(o)
    [] p = "C11" -> P_C11(o)  [] p = "C12" -> P_C12(o)  [] p = "C13" -> P_C13(o)  [] p = "C14" -> P_C14(o)
    [] p = "C15" -> P_C15(o)  [] p = "C16" -> P_C16(o)  [] p = "C17" -> P_C17(o)  [] p = "C18" -> P_C18(o)
    [] p = "C19" -> P_C19(o)  [] p = "C20" -> P_C20(o)  [] p = "C21" -> P_C21(o)  [] p = "C22" -> P_C22(o)
    [] p = "C23" -> P_C23(o)  [] p = "C24" -> P_C24(o)
    [] p = "C25" -> P_C25(o)  [] p = "C26" -> P_C26(o)  [] p = "C27" -> P_C27(o)  [] p = "C28" -> P_C28(o)
    [] p = "C29" -> P_C29(o)  [] p = "C30" -> P_C30(o)  [] p = "C31" -> P_C31(o)  [] p = "C32" -> P_C32(o)
    [] p = "C33" -> P_C33(o)
    [] OTHER -> Assert(FALSE, <<"no such property", p>>)

Init == g \in 1..Segments /\ l = First(g)
Observe ==
  /\ l <= Last(g)
  /\ IF Verdict(Lines[l].pred, Lines[l].rec.obs) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ FALSE
  /\ l' = l + 1 /\ g' = g
Spec == Init /\ [][Observe]_vars
Accepted == TLCGet("stats").distinct = Len(Lines) + Segments
=============================================================================
