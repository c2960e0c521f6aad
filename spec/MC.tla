--------------------------------- MODULE MC ---------------------------------
(* Bounded instances of Yamd: what can be typed, property by property, and the *)
(* behaviours written out for replay into the library.                         *)
EXTENDS Yamd, JsonForm, TLC, Json, CSV, IOUtils

\* texts of one and more characters
A == <<97>>  B == <<98>>  T == <<116>>  EE == <<233>>  EMOJI == <<128512>>
NL == <<LF>>  CRLF == <<CR, LF>>  BLANK == <<LF, LF>>  SPC == <<SP>>  BS == <<BSL>>
FENCE == <<TICK, TICK, TICK>>  BARS == <<DASH, DASH, DASH>>  RULE == <<DASH, DASH, DASH, DASH, DASH>>
COPEN == <<LBRACE, PCT>>  CCLOSE == <<PCT, RBRACE>>  BANGS == <<BANG, BANG>>
ITEM == <<DASH, SP>>  NUM == <<PLUS, SP>>
None == {<<>>}

Chunks_lex   == <<A, SPC, NL, CRLF, BS, <<STAR>>, <<LBRACE>>, <<PCT>>, <<RBRACE>>, EE>>
Chunks_mark  == <<A, EMOJI, SPC, NL, BS, <<CR>>, <<TILDE>>, <<USCORE>>, <<DASH>>, <<TICK>>, <<BANG>>, <<LSQ>>, <<GT>>>>
Chunks_any   == <<A, NL, BS, ITEM, <<HASH, SP>>, BANGS, <<COPEN[1], COPEN[2], LF>>, CCLOSE, FENCE, <<STAR, STAR>>, <<USCORE>>>>
Chunks_esc   == <<A, NL, BS, <<STAR>>, ITEM, <<HASH, SP>>, BANGS, EE>>
Chunks_in    == <<A, NL, <<USCORE>>, <<STAR>>, <<STAR, STAR>>, <<TILDE, TILDE>>, <<TICK>>>>
Chunks_link  == <<A, NL, <<LSQ>>, <<RSQ>>, <<LPAR>>, <<RPAR>>, <<BANG>>>>
Chunks_line  == <<A, SPC, NL, <<HASH>>, RULE, <<LBRACE, LBRACE>>, <<PIPE>>, <<RBRACE, RBRACE>>>>
Chunks_code  == <<A, NL, BLANK, FENCE, CCLOSE, BS, SPC>>
Chunks_list  == <<A, NL, SPC, ITEM, NUM, BLANK>>
Chunks_high  == <<A, NL, SPC, BANGS, <<BANG, SP>>, BLANK>>
Chunks_coll  == <<T, NL, SPC, COPEN, CCLOSE, BLANK>>
Chunks_nest  == <<A, NL, <<LBRACE, PCT, LF>>, CCLOSE, FENCE, BANGS, ITEM>>
Chunks_meta  == <<A, NL, BARS, <<DASH>>, BS, CRLF>>
Chunks_rule  == <<A, NL, BS, <<LBRACE, PCT, SP>>, BANGS, ITEM, FENCE, <<BANG, LSQ, RSQ, LPAR, RPAR>>>>
Chunks_row   == <<A, SPC, BS, <<USCORE>>, <<STAR>>, <<STAR, STAR>>, <<TILDE, TILDE>>, <<TICK>>, <<LSQ>>, <<RSQ, LPAR>>, <<RPAR>>, <<HASH>>, <<DASH>>>>
Chunks_dash  == <<A, SPC, NL, <<DASH>>, <<PLUS>>, ITEM, NUM, <<NL[1], SP, DASH, SP>>, <<NL[1], SP, PLUS, SP>>, BS, <<STAR>>>>
Chunks_plain == <<A, EMOJI, <<9>>, <<160>>, SPC, NL, BS, <<HASH>>, BANGS, ITEM, FENCE, <<LBRACE, PCT, SP>>>>
Chunks_eol   == <<A, NL, BS, ITEM, FENCE, BANGS, <<HASH, SP>>, BARS, COPEN, CCLOSE>>

Open_coll == {<<>>, <<LBRACE, PCT, SP, 116, LF>>}
Open_high == {<<>>, <<BANG, BANG, SP, 116, LF>>}
Open_list == {<<>>, <<DASH, SP, 97>>, <<DASH, SP, 97, LF, SP, PLUS, SP, 98>>}
Open_link == {<<>>, <<LSQ, 97, RSQ, LPAR>>}
Open_code == {<<>>, <<TICK, TICK, TICK, LF>>}
Open_meta == {<<>>, <<DASH, DASH, DASH, LF>>}
Open_line == {<<>>, <<97, LF, LF>>}
Close_coll == {<<>>, <<LF, PCT, RBRACE>>}
Close_high == {<<>>, <<LF, BANG, BANG>>}

(* how often each action was taken: one register per action *)
ActionNames == <<"Type", "Tokenise", "LexLineEnd", "LexPair", "LexBackslash", "LexRun", "LexSingle", "LexChar", "LexEnd", "Blocks",
                 "TakeSeparator", "TakeCode", "TakeEmbed", "TakeHighlight", "TakeList", "TakeImages", "TakeBreak", "TakeHeading",
                 "TakeParagraph", "OpenColl", "RejectColl", "CloseColl", "AbandonColl", "EndDocument", "Promote",
                 "BuildStart", "BuildValue", "BuildEnd", "PrintTree", "Reread">>
LexName == [linebreak |-> "LexLineEnd", pair |-> "LexPair", escape |-> "LexBackslash", run |-> "LexRun",
            single |-> "LexSingle", ordinary |-> "LexChar", finish |-> "LexEnd"]
BlockName == [separator |-> "TakeSeparator", code |-> "TakeCode", embed |-> "TakeEmbed", highlight |-> "TakeHighlight",
              list |-> "TakeList", images |-> "TakeImages", break |-> "TakeBreak", heading |-> "TakeHeading",
              paragraph |-> "TakeParagraph", open |-> "OpenColl", reject |-> "RejectColl", close |-> "CloseColl",
              abandon |-> "AbandonColl", finish |-> "EndDocument"]
Taken ==
  IF phase = "typing" THEN IF phase' = "typing" THEN "Type" ELSE "Tokenise"
  ELSE IF phase = "lexing" THEN IF lx.fin THEN "Blocks" ELSE LexName[LexKindAt(src, lx)]
  ELSE IF phase = "blocks" THEN IF bl.fin THEN "Promote" ELSE BlockName[BlockMove(bl).a]
  ELSE IF phase = "building"
       THEN IF k = Len(bl.ev) THEN "PrintTree"
            ELSE IF bl.ev[k + 1].o = "S" THEN "BuildStart" ELSE IF bl.ev[k + 1].o = "V" THEN "BuildValue" ELSE "BuildEnd"
  ELSE "Reread"
Reg(a) == CHOOSE i \in 1..Len(ActionNames) : ActionNames[i] = a
ASSUME \A i \in 1..Len(ActionNames) : TLCSet(i, 0)
Count == LET r == Reg(Taken) IN TLCSet(r, TLCGet(r) + 1)
RECURSIVE SumAll(_, _)
SumAll(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumAll(q, i - 1)
Counted ==
  LET all == TLCGet("all") IN
  JsonSerialize(IOEnv.COUNTS, [i \in 1..Len(ActionNames) |-> <<ActionNames[i], SumAll(all[i], Len(all[i]))>>])

Inv20 == AtEndOfRun => JsonLossless(Obs.doc) /\ JsonEvents(bl.ev)

(* for simulation: texts of nearly MaxChunks chunks, and only those *)
LongNext == Type \/ (n + 4 >= MaxChunks /\ Tokenise) \/ (phase # "typing" /\ Work)
LongSpec == Init /\ [][LongNext]_vars

(* a run of the specification, for replay *)
Emit ==
  AtEndOfRun =>
    CSVWrite("%1$s", <<ToJson([kind |-> "text", src |-> src, tk |-> lx.out, ev |-> bl.ev, doc |-> Obs.doc,
                               out |-> out, doc2 |-> doc2])>>, IOEnv.BEHAVIOURS)
=============================================================================
