-------------------------------- MODULE Pairs --------------------------------
(* Two texts and their join (C22).  The first and the second text are typed;   *)
(* then the block parser runs over the first, a blank line, and the second, and*)
(* once more with all of it in a collapsible.                                  *)
EXTENDS Props, TLC, Json, CSV, IOUtils

CONSTANTS Parts, MaxA, MaxB

VARIABLES a, b, na, nb, phase, bl
vars == <<a, b, na, nb, phase, bl>>

A == <<97>>  NL == <<LF>>  BLANK == <<LF, LF>>
Parts_mix == <<A, NL, <<DASH, SP>>, <<LF, SP, PLUS, SP>>, <<HASH, SP>>, <<BANG, BANG>>, <<STAR, STAR>>, <<TICK, TICK, TICK>>,
               <<LBRACE, PCT, LF>>, <<LF, PCT, RBRACE>>, <<LSQ, 97, RSQ, LPAR>>>>
Parts_whole == <<A, <<DASH, SP, 97>>, <<SP, DASH, SP, 97>>, NL, <<PLUS, SP, 97>>, BLANK, <<BANG, BANG, LF, 97, LF, BANG, BANG>>,
                 <<TICK, TICK, TICK, LF, LF, LF, TICK, TICK, TICK>>, <<LBRACE, PCT, SP, 117, LF, 97, LF, PCT, RBRACE>>,
                 <<BANG, LSQ, RSQ, LPAR, RPAR>>, <<HASH, SP, 97>>, <<DASH, DASH, DASH, DASH, DASH>>, <<DASH, DASH, DASH>>, <<STAR>>>>

Idle == [i |-> 0]
Init == a = <<>> /\ b = <<>> /\ na = 0 /\ nb = 0 /\ phase = "first" /\ bl = Idle
TypeFirst ==
  /\ phase = "first" /\ na < MaxA /\ \E c \in 1..Len(Parts) : a' = a \o Parts[c]
  /\ na' = na + 1 /\ UNCHANGED <<b, nb, phase, bl>>
Switch == phase = "first" /\ phase' = "second" /\ UNCHANGED <<a, b, na, nb, bl>>
TypeSecond ==
  /\ phase = "second" /\ nb < MaxB /\ \E c \in 1..Len(Parts) : b' = b \o Parts[c]
  /\ nb' = nb + 1 /\ UNCHANGED <<a, na, phase, bl>>
Join1 ==
  /\ phase = "second" /\ phase' = "joined"
  /\ bl' = BlockInit(JoinText(a, b), Lex(JoinText(a, b)))
  /\ na' = 0 /\ nb' = 0 /\ UNCHANGED <<a, b>>
Move1 == phase = "joined" /\ ~bl.fin /\ bl' = BlockStep(bl) /\ UNCHANGED <<a, b, na, nb, phase>>
Wrap  == /\ phase = "joined" /\ bl.fin /\ phase' = "wrapped"
         /\ bl' = BlockInit(CollText(a, b), Lex(CollText(a, b))) /\ UNCHANGED <<a, b, na, nb>>
Move2 == phase = "wrapped" /\ ~bl.fin /\ bl' = BlockStep(bl) /\ UNCHANGED <<a, b, na, nb, phase>>
Next == TypeFirst \/ Switch \/ TypeSecond \/ Join1 \/ Move1 \/ Wrap \/ Move2
Spec == Init /\ [][Next]_vars

AtEndOfRun == phase = "wrapped" /\ bl.fin
Inv22 == AtEndOfRun => P_C22(ModelPair(a, b))
Inv28 ==
  (phase = "joined" /\ bl.fin) =>
    D_C28([a |-> a, b |-> b, ea |-> Parse(a), eb |-> Parse(b), ej |-> bl.ev])
(* while the joined text is parsed: what is settled are the events of both *)
InvEvents ==
  (phase = "joined" /\ ~bl.fin /\ bl.open = <<>> /\ C22Premise([a |-> a, b |-> b])) =>
     IsPrefixOf(bl.ev, JoinedEv(a, Parse(a), Parse(b)))
(* while the joined text is parsed: the finished blocks are the first so many of both *)
Frames == BuildFrom(bl.ev, 1, BuildInit).stack
Want == Tree(a).body \o Tree(b).body
InvBlocks ==
  (phase = "joined" /\ ~bl.fin /\ bl.open = <<>> /\ C22Premise([a |-> a, b |-> b])) =>
     IsPrefixOf(Top(Frames).body, Want)
InvInside ==
  (phase = "wrapped" /\ ~bl.fin /\ Len(bl.open) = 1 /\ C22Coll([a |-> a, b |-> b])) =>
     IsPrefixOf(Top(Frames).body, Want)
Emit ==
  AtEndOfRun =>
    LET m == ModelPair(a, b) IN
    CSVWrite("%1$s", <<ToJson([kind |-> "pair", a |-> a, b |-> b, da |-> m.da, db |-> m.db, dj |-> m.dj, dc |-> m.dc])>>,
             IOEnv.BEHAVIOURS)
(* not vacuous: counted, and reported by the check *)
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Count == (phase = "joined" /\ phase' = "wrapped") =>
  /\ C22Premise([a |-> a, b |-> b]) => TLCSet(1, TLCGet(1) + 1)
  /\ C22Coll([a |-> a, b |-> b]) => TLCSet(2, TLCGet(2) + 1)
RECURSIVE SumAll(_, _)
SumAll(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumAll(q, i - 1)
Counted ==
  LET all == TLCGet("all") IN
  JsonSerialize(IOEnv.COUNTS, <<<<"premise holds", SumAll(all[1], Len(all[1]))>>,
                                <<"premise of the collapsible form holds", SumAll(all[2], Len(all[2]))>>>>)
=============================================================================
