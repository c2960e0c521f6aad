-------------------------------- MODULE Yamd --------------------------------
(* The library as a transition system.  A text is typed chunk by chunk; then   *)
(* one step consumes one lexeme, makes one block-level move, hands one event   *)
(* to the tree builder, prints the tree, or reads the printed text again.      *)
(*                                                                             *)
(*   typing --Tokenise--> lexing --Blocks--> blocks --Promote--> building      *)
(*          --PrintTree--> printed --Reread--> done                                *)
EXTENDS Props

CONSTANTS Chunks,      \* sequence of texts that can be typed
          MaxChunks,   \* how many of them
          Prefix,      \* set of texts to start from
          Suffixes     \* set of texts to end with

VARIABLES src,    \* the text
          n,      \* chunks typed so far
          phase,
          lx,     \* state of the tokenizer
          bl,     \* state of the block parser
          bs,     \* state of the tree builder
          k,      \* events handed to it
          out,    \* printed text
          doc2    \* the tree of the printed text
vars == <<src, n, phase, lx, bl, bs, k, out, doc2>>

Idle == [i |-> 0]
Init ==
  /\ src \in Prefix /\ n = 0 /\ phase = "typing"
  /\ lx = LexInit /\ bl = Idle /\ bs = BuildInit /\ k = 0 /\ out = <<>> /\ doc2 = <<>>

Type ==
  /\ phase = "typing" /\ n < MaxChunks
  /\ \E c \in 1..Len(Chunks) : src' = src \o Chunks[c]
  /\ n' = n + 1
  /\ UNCHANGED <<phase, lx, bl, bs, k, out, doc2>>
Tokenise ==
  /\ phase = "typing"
  /\ \E z \in Suffixes : src' = src \o z
  /\ phase' = "lexing" /\ n' = 0   \* how it was typed does not matter from here on
  /\ UNCHANGED <<lx, bl, bs, k, out, doc2>>

LexAs(a) ==
  /\ phase = "lexing" /\ ~lx.fin
  /\ LexKindAt(src, lx) = a
  /\ lx' = LexStep(src, lx)
  /\ UNCHANGED <<src, n, phase, bl, bs, k, out, doc2>>
LexLineEnd   == LexAs("linebreak")
LexPair      == LexAs("pair")
LexBackslash == LexAs("escape")
LexRun       == LexAs("run")
LexSingle    == LexAs("single")
LexChar      == LexAs("ordinary")
LexEnd       == LexAs("finish")
Lexing == LexLineEnd \/ LexPair \/ LexBackslash \/ LexRun \/ LexSingle \/ LexChar \/ LexEnd

Blocks ==
  /\ phase = "lexing" /\ lx.fin
  /\ phase' = "blocks" /\ bl' = BlockInit(src, lx.out)
  /\ UNCHANGED <<src, n, lx, bs, k, out, doc2>>

BlockAs(a) ==
  /\ phase = "blocks" /\ ~bl.fin
  /\ LET m == BlockMove(bl) IN m.a = a /\ bl' = m.b
  /\ UNCHANGED <<src, n, phase, lx, bs, k, out, doc2>>
TakeSeparator == BlockAs("separator")
TakeCode      == BlockAs("code")
TakeEmbed     == BlockAs("embed")
TakeHighlight == BlockAs("highlight")
TakeList      == BlockAs("list")
TakeImages    == BlockAs("images")
TakeBreak     == BlockAs("break")
TakeHeading   == BlockAs("heading")
TakeParagraph == BlockAs("paragraph")
OpenColl      == BlockAs("open")
RejectColl    == BlockAs("reject")     \* no title line
CloseColl     == BlockAs("close")
AbandonColl   == BlockAs("abandon")    \* no closer: go back to the opener
EndDocument   == BlockAs("finish")
Blocking == \/ TakeSeparator \/ TakeCode \/ TakeEmbed \/ TakeHighlight \/ TakeList \/ TakeImages \/ TakeBreak
            \/ TakeHeading \/ TakeParagraph \/ OpenColl \/ RejectColl \/ CloseColl \/ AbandonColl \/ EndDocument

Promote ==
  /\ phase = "blocks" /\ bl.fin
  /\ phase' = "building"
  /\ UNCHANGED <<src, n, lx, bl, bs, k, out, doc2>>
BuildAs(o) ==
  /\ phase = "building" /\ k < Len(bl.ev) /\ bl.ev[k + 1].o = o
  /\ bs' = BuildStep(bs, bl.ev[k + 1]) /\ k' = k + 1
  /\ UNCHANGED <<src, n, phase, lx, bl, out, doc2>>
BuildStart == BuildAs("S")
BuildValue == BuildAs("V")
BuildEnd   == BuildAs("E")
PrintTree ==
  /\ phase = "building" /\ k = Len(bl.ev)
  /\ phase' = "printed" /\ out' = Show(BuildResult(bs).tree)
  /\ UNCHANGED <<src, n, lx, bl, bs, k, doc2>>
Reread ==
  /\ phase = "printed"
  /\ phase' = "done" /\ doc2' = Tree(out)
  /\ UNCHANGED <<src, n, lx, bl, bs, k, out>>

Work == Tokenise \/ Lexing \/ Blocks \/ Blocking \/ Promote \/ BuildStart \/ BuildValue \/ BuildEnd \/ PrintTree \/ Reread
Next == Type \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

(* what the library would report at the end *)
Obs == [src |-> src, tk |-> lx.out, ev |-> bl.ev, ok |-> BuildResult(bs).ok, doc |-> BuildResult(bs).tree,
        out |-> out, doc2 |-> doc2, out2 |-> Show(doc2), fin |-> TRUE, after |-> TRUE]

--------------------------------------------------------------------------------
(* Invariants of the steps *)

(* C06, C08: the tokens made so far, the one held back and the open literal     *)
(* tile what has been read; each is where it says                              *)
LexSoFar ==
  lx.out \o lx.pend
  \o (IF lx.lit = <<>> THEN <<>>
      ELSE LET l == lx.lit[1] IN <<Tok("Literal", l.s, lx.b, l.a, lx.i, l.c, l.r, l.x)>>)
InvTiles ==
  phase = "lexing" =>
    /\ RangesFrom(LexSoFar, 1, <<>>) = Kept(SubSeq(src, 1, lx.i - 1))
    /\ \A j \in 1..Len(LexSoFar) : LexSoFar[j].a < LexSoFar[j].z
    /\ lx.b = U8Len(SubSeq(src, 1, lx.i - 1))
InvPosition ==
  (phase = "lexing" /\ lx.i <= Len(src)) => <<lx.row, lx.col>> = PosFrom(src, 1, 0, 0, <<>>)[lx.i]
(* C27: what comes does not change what was *)
InvCut ==
  (phase = "lexing" /\ ~lx.fin) => LexSoFar = Lex(SubSeq(src, 1, lx.i - 1))
(* C07: what has been emitted is as it will stay *)
InvKinds ==
  phase = "lexing" => LET esc == Escaped(src)
                          o == [src |-> src, tk |-> lx.out] IN
                      \A j \in 1..Len(lx.out) : KindOk(o, esc, j)

(* C02: the events made so far cover the text so far *)
WalkSoFar ==
  LET kept == Kept(src) IN
  WalkFrom([ev |-> bl.ev, kept |-> kept, pl |-> Plain(src, kept), off |-> Offsets(src)], 1, 0,
           [ok |-> TRUE, at |-> <<>>, k |-> 0])
InvCovers ==
  phase = "blocks" =>
    LET w == WalkSoFar
        pl == Plain(src, Kept(src))
        texts == Concat([j \in 1..Len(bl.ev) |-> bl.ev[j].x.w]) IN
    /\ w.k <= Len(pl)
    \* complete up to the tokens taken
    /\ bl.fin => w.ok
    /\ LET read == Concat([j \in 1..(bl.p - 1) |-> SubSeq(src, bl.tk[j].a, bl.tk[j].z - 1)]) IN
       w.k = Len(read) \/ w.k + LineBreakLen(read, w.k + 1) = Len(read)

(* C03, C16: every start but those of the open collapsibles is closed *)
RECURSIVE OpenStarts(_, _, _)
OpenStarts(ev, i, acc) ==
  IF i > Len(ev) THEN acc
  ELSE IF ev[i].o = "S" THEN OpenStarts(ev, i + 1, Append(acc, ev[i].n))
  ELSE IF ev[i].o = "E" THEN IF acc # <<>> /\ acc[Len(acc)] = ev[i].n THEN OpenStarts(ev, i + 1, SubSeq(acc, 1, Len(acc) - 1))
                             ELSE <<"mismatch">>
  ELSE OpenStarts(ev, i + 1, acc)
InvOpen ==
  phase = "blocks" =>
    OpenStarts(bl.ev, 1, <<>>)
      = (IF bl.fin THEN <<>> ELSE <<"Document">> \o Concat([j \in 1..Len(bl.open) |-> <<"Collapsible", "Document">>]))
(* an open collapsible begins where it says, and going back would drop exactly what came since *)
InvResume ==
  (phase = "blocks" /\ ~bl.fin) =>
    \A j \in 1..Len(bl.open) :
      /\ bl.open[j].p < bl.p \/ bl.p > Len(bl.tk)
      /\ bl.ev[bl.open[j].n + 1] = EvS("Collapsible", Content(bl, bl.open[j].p, bl.open[j].p + 2))
      /\ bl.tk[bl.open[j].p].k = "CollapsibleStart"

(* C04, C05: the frames are the starts not yet ended *)
InvFrames ==
  phase = "building" =>
    /\ ~bs.err
    /\ [j \in 1..Len(bs.stack) |-> bs.stack[j].f] = <<"Yamd">> \o OpenStarts(SubSeq(bl.ev, 1, k), 1, <<>>)

(* C01: every step makes the rest smaller, so every text is done after finitely many *)
Openers(b) == Cardinality({j \in 1..Len(b.tk) : b.tk[j].k = "CollapsibleStart"})
Smaller(x, y) == \* x < y, lexicographically
  \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
Measure(ph, l, b, j) ==
  CASE ph = "lexing"   -> <<4, (IF l.fin THEN 0 ELSE 1), Len(src) - l.i + 1, 0>>
    [] ph = "blocks"   -> <<3, Openers(b), (IF b.fin THEN 0 ELSE 1), Len(b.tk) + 1 - b.p, Len(b.open)>>
    [] ph = "building" -> <<2, Len(bl.ev) - j, 0, 0>>
    [] ph = "printed"  -> <<1, 0, 0, 0>>
    [] ph = "done"     -> <<0, 0, 0, 0>>
    [] OTHER           -> <<5, 0, 0, 0>>
Progress == [][phase = "typing" \/ Smaller(Measure(phase', lx', bl', k'), Measure(phase, lx, bl, k))]_vars
Terminates == <>(phase = "done")

--------------------------------------------------------------------------------
(* The properties at the end of a run *)
AtEndOfRun == phase = "done"
Inv01 == AtEndOfRun => P_C01(Obs)
Inv02 == AtEndOfRun => D_C02(Obs)
Inv03 == AtEndOfRun => D_C03(Obs)
Inv04 == AtEndOfRun => D_C04(Obs)
Inv05 == AtEndOfRun => Balanced(bl.ev) = BuildResult(bs).ok
Inv06 == AtEndOfRun => D_C06(Obs)
Inv07 == AtEndOfRun => D_C07(Obs)
Inv08 == AtEndOfRun => D_C08(Obs)
Inv09 == AtEndOfRun =>
  LET alt == AltSrc(src)
      aev == Parse(alt) IN
  D_C09([src |-> src, tk |-> lx.out, ev |-> bl.ev, doc |-> Obs.doc, aev |-> aev, adoc |-> Build(aev).tree])
Inv09f == AtEndOfRun =>
  LET e == FullyEscaped(src) IN D_C09f([src |-> e, plain |-> src, doc |-> Tree(e)])
Inv10 == AtEndOfRun => D_C10(Obs)
Inv11 == AtEndOfRun => D_C11(Obs)
Inv12 == AtEndOfRun => D_C12(Obs)
Inv13 == AtEndOfRun => D_C13(Obs)
Inv14 == AtEndOfRun => D_C14(Obs)
Inv15 == AtEndOfRun => D_C15(Obs)
Inv16 == AtEndOfRun => D_C16(Obs)
Inv17 == AtEndOfRun => D_C17(Obs)
Inv18 == AtEndOfRun => P_C18(Obs)
Inv19 == AtEndOfRun => P_C19(Obs)
Inv21 == AtEndOfRun => D_C21([src |-> src, ev |-> bl.ev, agree |-> Tree(src) = Obs.doc /\ Lex(src) = lx.out])
Inv23 == AtEndOfRun => P_C23([src |-> src, doc |-> Obs.doc, cdoc |-> Tree(CrLf(src))])
Inv24 == AtEndOfRun => D_C24(Obs)
Inv26 == AtEndOfRun => D_C26(ModelBuilt(Obs.doc))
Inv29 == AtEndOfRun => D_C29(ModelPlaces(src))
Inv30 == AtEndOfRun => D_C30(ModelRenamed(src, lx.out, bl.ev, Obs.doc, out))
Inv31 == AtEndOfRun => D_C31(ModelEdited(Obs.doc))
Inv32 == AtEndOfRun => D_C32(ModelMore(src, Obs.doc))
Inv33 == AtEndOfRun => D_C33(ModelExchanged(src, lx.out, bl.ev, Obs.doc))
Inv27 == AtEndOfRun => D_C27(ModelCuts(src, lx.out))
=============================================================================
