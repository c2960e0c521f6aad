------------------------------- MODULE Contents -------------------------------
(* Contents assembled from tokens (C25).  A text is typed and tokenised; then   *)
(* tokens are picked, in any order and as often as wanted, and put together one*)
(* by one.                                                                     *)
EXTENDS Props, TLC, Json, CSV, IOUtils

CONSTANTS Chunks, MaxChunks, MaxPicks

VARIABLES src, n, phase, tk, ps, ct
vars == <<src, n, phase, tk, ps, ct>>

A == <<97>>
Chunks_content == <<A, <<BSL>>, <<STAR>>, <<SP>>, <<LF>>, <<233>>>>
Chunks_parts   == <<<<BSL, 97>>, <<BSL, STAR>>, <<STAR, STAR>>, <<LF, LF>>, <<128512>>, <<CR, LF>>, <<LBRACE, PCT>>>>

Init == src = <<>> /\ n = 0 /\ phase = "typing" /\ tk = <<>> /\ ps = <<>> /\ ct = ContentInit
Type ==
  /\ phase = "typing" /\ n < MaxChunks /\ n' = n + 1
  /\ \E c \in 1..Len(Chunks) : src' = src \o Chunks[c]
  /\ UNCHANGED <<phase, tk, ps, ct>>
Tokenise ==
  /\ phase = "typing" /\ phase' = "picking" /\ tk' = Lex(src) /\ n' = 0
  /\ UNCHANGED <<src, ps, ct>>
Pick ==
  /\ phase = "picking" /\ Len(ps) < MaxPicks
  /\ \E i \in 1..Len(tk) : ps' = Append(ps, i) /\ ct' = AddToken(src, ct, tk[i])
  /\ UNCHANGED <<src, n, phase, tk>>
Next == Type \/ Tokenise \/ Pick
Spec == Init /\ [][Next]_vars

Inv25 == phase = "picking" => D_C25([ModelPicks(src, tk, ps) EXCEPT !.c = ct])
(* whoever owned a text keeps owning it; the text only grows *)
Grows == [][phase = "picking" => /\ IsPrefixOf(ct.w, ct'.w) /\ ct # ct'
                                 /\ ct.m => ct'.m]_vars
Emit ==
  phase = "picking" =>
    CSVWrite("%1$s", <<ToJson([kind |-> "picks", src |-> src, tk |-> tk, ps |-> ps, c |-> ct])>>, IOEnv.BEHAVIOURS)
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Count == (phase = "picking") =>
  /\ ct'.m => TLCSet(1, TLCGet(1) + 1)
  /\ ~ct'.m => TLCSet(2, TLCGet(2) + 1)
RECURSIVE SumAll(_, _)
SumAll(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumAll(q, i - 1)
Counted ==
  LET all == TLCGet("all") IN
  JsonSerialize(IOEnv.COUNTS, <<<<"contents that own their text", SumAll(all[1], Len(all[1]))>>,
                                <<"contents that borrow it", SumAll(all[2], Len(all[2]))>>>>)
=============================================================================
