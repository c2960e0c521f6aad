----------------------------- MODULE CallsTrace -----------------------------
(* Histories of calls and returns recorded from the real library, one per line *)
(* of TRACE: entries [k, c, a, t, i, r], k "call" or "ret", r the number of    *)
(* the result, the same number for equal results of one kind.  A history is    *)
(* accepted if calls and returns alternate for each caller and the same        *)
(* question about the same text has always the same answer.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Lines    == ndJsonDeserialize(IOEnv.TRACE)
Segments == atoi(IOEnv.SEGMENTS)
First(g) == ((g - 1) * Len(Lines)) \div Segments + 1
Last(g)  == (g * Len(Lines)) \div Segments

VARIABLES g, l, j, pend, seen
vars == <<g, l, j, pend, seen>>

Class(a) == IF a \in {"fallible", "infallible", "onestep", "look"} THEN "tree" ELSE a
Key(e) == <<Class(e.a), e.t, e.i>>
H == Lines[l].hist
None == {}   \* no pending calls, nothing seen

Init == g \in 1..Segments /\ l = First(g) /\ j = 1 /\ pend = None /\ seen = None
Busy(c) == \E p \in pend : p.c = c
Call ==
  /\ H[j].k = "call" /\ ~Busy(H[j].c)
  /\ pend' = pend \cup {[c |-> H[j].c, q |-> Key(H[j])]} /\ UNCHANGED seen
Return ==
  /\ H[j].k = "ret" /\ [c |-> H[j].c, q |-> Key(H[j])] \in pend
  /\ \A x \in seen : x.q = Key(H[j]) => x.r = H[j].r
  /\ pend' = {p \in pend : p.c # H[j].c}
  /\ seen' = seen \cup {[q |-> Key(H[j]), r |-> H[j].r]}
Entry ==
  /\ l <= Last(g) /\ j <= Len(H)
  /\ IF (H[j].k = "call" /\ ~Busy(H[j].c)) \/ (H[j].k = "ret" /\ ENABLED Return) THEN TRUE
     ELSE PrintT(<<"REJECT", l, j>>) /\ FALSE
  /\ Call \/ Return
  /\ j' = j + 1 /\ UNCHANGED <<g, l>>
Finish ==
  /\ l <= Last(g) /\ j = Len(H) + 1 /\ pend = None
  /\ l' = l + 1 /\ j' = 1 /\ seen' = None /\ UNCHANGED <<g, pend>>
Next == Entry \/ Finish
Spec == Init /\ [][Next]_vars
RECURSIVE Entries(_)
Entries(i) == IF i = 0 THEN 0 ELSE Len(Lines[i].hist) + 1 + Entries(i - 1)
Accepted == TLCGet("stats").distinct = Entries(Len(Lines)) + Segments
=============================================================================
