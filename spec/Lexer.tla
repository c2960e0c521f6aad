------------------------------- MODULE Lexer --------------------------------
(* The tokenizer as a transition system.  One step consumes one lexeme: a line *)
(* break, an escape, a marker run, a marker, or one ordinary character.        *)
(*                                                                             *)
(* token: k kind, s/e byte range, a/z character range [a, z), b/c/r position:  *)
(*        byte offset, column and row, x whether the token begins with an      *)
(*        escaped character                                                    *)
EXTENDS Text

Tok(k, s, e, a, z, c, r, x) ==
  [k |-> k, s |-> s, e |-> e, a |-> a, z |-> z, b |-> s, c |-> c, r |-> r, x |-> x]

RunKind(ch) ==
  CASE ch = TILDE -> "Tilde"            [] ch = STAR -> "Star"
    [] ch = RBRACE -> "RightCurlyBrace" [] ch = LBRACE -> "LeftCurlyBrace"
    [] ch = DASH -> "Minus"             [] ch = HASH -> "Hash"
    [] ch = GT -> "GreaterThan"         [] ch = BANG -> "Bang"
    [] ch = TICK -> "Backtick"          [] ch = PLUS -> "Plus"
    [] ch = SP -> "Space"               [] OTHER -> ""
SingleKind(ch) ==
  CASE ch = LSQ -> "LeftSquareBracket"  [] ch = RSQ -> "RightSquareBracket"
    [] ch = LPAR -> "LeftParenthesis"   [] ch = RPAR -> "RightParenthesis"
    [] ch = USCORE -> "Underscore"      [] ch = PIPE -> "Pipe"
    [] OTHER -> ""

\* i: next character, b: its byte offset, lit: <<>> or <<open literal>>,
\* pend: <<>> or <<last token, not yet emitted>>, out: emitted tokens
LexInit == [i |-> 1, b |-> 0, row |-> 0, col |-> 0, lit |-> <<>>, pend |-> <<>>, out |-> <<>>, fin |-> FALSE]

Push(lx, t) == [lx EXCEPT !.out = @ \o lx.pend, !.pend = <<t>>]

\* close the open literal at the current position
Flush(lx) ==
  IF lx.lit = <<>> THEN lx
  ELSE LET l == lx.lit[1] IN
       Push([lx EXCEPT !.lit = <<>>], Tok("Literal", l.s, lx.b, l.a, lx.i, l.c, l.r, l.x))

RECURSIVE RunEnd(_, _, _)
RunEnd(src, i, ch) == IF At(src, i) = ch THEN RunEnd(src, i + 1, ch) ELSE i

LineBreakLen(src, i) ==
  IF At(src, i) = LF THEN 1
  ELSE IF At(src, i) = CR /\ At(src, i + 1) = LF THEN 2 ELSE 0

LexLineBreak(src, lx) ==
  LET w == LineBreakLen(src, lx.i)
      f == Flush(lx)
      t == Tok("Eol", f.b, f.b + w, f.i, f.i + w, f.col, f.row, FALSE)
      g == IF f.pend # <<>> /\ f.pend[1].k = "Eol"
           THEN [f EXCEPT !.pend = <<[f.pend[1] EXCEPT !.k = "Terminator", !.e = t.e, !.z = t.z]>>]
           ELSE Push(f, t)
  IN  [g EXCEPT !.i = @ + w, !.b = @ + w, !.row = @ + 1, !.col = 0]

LexMarker(lx, k, w) ==
  LET f == Flush(lx) IN
  [Push(f, Tok(k, f.b, f.b + w, f.i, f.i + w, f.col, f.row, FALSE))
     EXCEPT !.i = @ + w, !.b = @ + w, !.col = @ + w]

LexEscape(src, lx) ==
  LET f == Flush(lx) IN
  IF f.i < Len(src)
  THEN [f EXCEPT !.lit = <<[s |-> f.b + 1, a |-> f.i + 1, c |-> f.col, r |-> f.row, x |-> TRUE]>>,
                 !.i = @ + 2, !.b = @ + 1 + U8(src[f.i + 1]), !.col = @ + 1]
  ELSE [f EXCEPT !.i = @ + 1, !.b = @ + 1]

LexOrdinary(src, lx) ==
  [lx EXCEPT !.lit = IF @ = <<>> THEN <<[s |-> lx.b, a |-> lx.i, c |-> lx.col, r |-> lx.row, x |-> FALSE]>> ELSE @,
             !.i = @ + 1, !.b = @ + U8(src[lx.i]), !.col = @ + 1]

LexFinish(lx) ==
  LET f == Flush(lx) IN [f EXCEPT !.out = @ \o f.pend, !.pend = <<>>, !.fin = TRUE]

IsPair(src, i) == (At(src, i) = LBRACE /\ At(src, i + 1) = PCT) \/ (At(src, i) = PCT /\ At(src, i + 1) = RBRACE)

LexKindAt(src, lx) ==
  IF lx.i > Len(src) THEN "finish"
  ELSE LET ch == src[lx.i] IN
       IF LineBreakLen(src, lx.i) > 0 THEN "linebreak"
       ELSE IF IsPair(src, lx.i) THEN "pair"
       ELSE IF ch = BSL THEN "escape"
       ELSE IF RunKind(ch) # "" /\ (ch # SP \/ lx.lit = <<>>) THEN "run"
       ELSE IF SingleKind(ch) # "" THEN "single"
       ELSE "ordinary"

LexStep(src, lx) ==
  LET a == LexKindAt(src, lx) IN
  CASE a = "finish"    -> LexFinish(lx)
    [] a = "linebreak" -> LexLineBreak(src, lx)
    [] a = "pair"      -> LexMarker(lx, IF src[lx.i] = LBRACE THEN "CollapsibleStart" ELSE "CollapsibleEnd", 2)
    [] a = "escape"    -> LexEscape(src, lx)
    [] a = "run"       -> LexMarker(lx, RunKind(src[lx.i]), RunEnd(src, lx.i, src[lx.i]) - lx.i)
    [] a = "single"    -> LexMarker(lx, SingleKind(src[lx.i]), 1)
    [] OTHER           -> LexOrdinary(src, lx)

RECURSIVE LexFrom(_, _)
LexFrom(src, lx) == IF lx.fin THEN lx.out ELSE LexFrom(src, LexStep(src, lx))
Lex(src) == LexFrom(src, LexInit)
=============================================================================
