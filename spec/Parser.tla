------------------------------- MODULE Parser -------------------------------
(* From tokens to the event stream.                                            *)
(*                                                                             *)
(* event:   o  "S" start, "E" end, "V" value;  n  node name ("" for values);   *)
(*          x  content                                                         *)
(* content: m  TRUE when owned, s/e borrowed byte range, w  the text it stands *)
(*          for                                                                *)
(*                                                                             *)
(* Blocks are a transition system (BlockStep) whose stack holds the open       *)
(* collapsibles; everything below a block is recursive descent.  `cx` carries  *)
(* the source and the tokens; `st` is the sequence of stop conditions in       *)
(* force.                                                                      *)
EXTENDS Lexer

Stop(t)            == [t |-> t, lv |-> 0, kd |-> ""]
StopTerm           == Stop("Terminator")
StopColl           == Stop("CollapsibleEnd")
StopHigh           == Stop("HighlightEnd")
StopList(lv, kd)   == [t |-> "ListBoundary", lv |-> lv, kd |-> kd]

--------------------------------------------------------------------------------
(* token tests *)
Has(cx, p)         == p >= 1 /\ p <= Len(cx.tk)
IsK(cx, p, k)      == Has(cx, p) /\ cx.tk[p].k = k
IsKN(cx, p, k, n)  == Has(cx, p) /\ cx.tk[p].k = k /\ cx.tk[p].e - cx.tk[p].s = n
Col0(cx, p)        == Has(cx, p) /\ cx.tk[p].c = 0
IsKN0(cx, p, k, n) == IsKN(cx, p, k, n) /\ cx.tk[p].c = 0
MarkerKind(cx, p) ==
  IF IsKN(cx, p, "Minus", 1) THEN "UnorderedList"
  ELSE IF IsKN(cx, p, "Plus", 1) THEN "OrderedList" ELSE ""

(* a list marker of nesting level lv at p; kd = "" means any kind *)
ListMarkerAt(cx, p, lv, kd) ==
  /\ Col0(cx, p)
  /\ lv > 0 => IsKN(cx, p, "Space", lv)
  /\ LET q == IF lv = 0 THEN p ELSE p + 1 IN
     /\ MarkerKind(cx, q) # ""
     /\ kd # "" => MarkerKind(cx, q) = kd
     /\ IsKN(cx, q + 1, "Space", 1)

StopMatches(cx, p, c) ==
  CASE c.t = "Terminator"     -> IsK(cx, p, "Terminator")
    [] c.t = "CollapsibleEnd" -> \/ IsK(cx, p, "CollapsibleEnd") /\ Col0(cx, p)
                                 \/ IsK(cx, p, "Eol") /\ IsK(cx, p + 1, "CollapsibleEnd") /\ Col0(cx, p + 1)
    [] c.t = "HighlightEnd"   -> IsKN0(cx, p, "Bang", 2)
    [] OTHER                  -> /\ Col0(cx, p)
                                 /\ \E l \in 0..(c.lv + 1) : ListMarkerAt(cx, p, l, IF l = c.lv THEN c.kd ELSE "")

AtEnd(cx, p, st) == ~Has(cx, p) \/ \E i \in 1..Len(st) : StopMatches(cx, p, st[i])
AtBoundary(cx, p, st) == AtEnd(cx, p, st) \/ IsK(cx, p, "Terminator")

(* first token at or after p, before any stop, of kind k and length n          *)
(* (n = 0: any length; c0: only at the start of a line); 0 if there is none    *)
RECURSIVE Find(_, _, _, _, _, _)
Find(cx, p, st, k, n, c0) ==
  IF AtEnd(cx, p, st) THEN 0
  ELSE IF cx.tk[p].k = k /\ (n = 0 \/ cx.tk[p].e - cx.tk[p].s = n) /\ (c0 => cx.tk[p].c = 0) THEN p
  ELSE Find(cx, p + 1, st, k, n, c0)

RECURSIVE FindLineEnd(_, _, _)
FindLineEnd(cx, p, st) ==
  IF AtEnd(cx, p, st) THEN 0
  ELSE IF cx.tk[p].k = "Eol" \/ cx.tk[p].k = "Terminator" THEN p
  ELSE FindLineEnd(cx, p + 1, st)

--------------------------------------------------------------------------------
(* contents and events *)
NoContent == [m |-> FALSE, s |-> 0, e |-> 0, w |-> <<>>]

RECURSIVE TokText(_, _, _, _)
TokText(cx, a, b, acc) ==
  IF a >= b THEN acc ELSE TokText(cx, a + 1, b, acc \o SubSeq(cx.src, cx.tk[a].a, cx.tk[a].z - 1))

(* content of the tokens a .. b-1 *)
Content(cx, a, b) ==
  IF a >= b THEN NoContent
  ELSE IF \E i \in (a + 1)..(b - 1) : cx.tk[i - 1].e # cx.tk[i].s
       THEN [m |-> TRUE, s |-> 0, e |-> 0, w |-> TokText(cx, a, b, <<>>)]
       ELSE [m |-> FALSE, s |-> cx.tk[a].s, e |-> cx.tk[b - 1].e,
             w |-> SubSeq(cx.src, cx.tk[a].a, cx.tk[b - 1].z - 1)]

EvS(n, x) == [o |-> "S", n |-> n, x |-> x]
EvE(n, x) == [o |-> "E", n |-> n, x |-> x]
EvV(x)    == [o |-> "V", n |-> "", x |-> x]

Fail == [ok |-> FALSE, p |-> 0, ev |-> <<>>]
Done(p, ev) == [ok |-> TRUE, p |-> p, ev |-> ev]

(* pending plain text [from, p) as an event, if there is any (from = 0: none)  *)
TextEv(cx, from, p) == IF from = 0 THEN <<>> ELSE <<EvV(Content(cx, from, p))>>

(* start, raw body, end: tokens p, (p+1 .. q-1), q *)
RawNode(cx, n, p, q) ==
  <<EvS(n, Content(cx, p, p + 1)), EvV(Content(cx, p + 1, q)), EvE(n, Content(cx, q, q + 1))>>

--------------------------------------------------------------------------------
(* inline constructs *)
Delimited(cx, p, st, n, k, w) ==
  IF ~IsKN(cx, p, k, w) THEN Fail
  ELSE LET q == Find(cx, p + 1, st, k, w, FALSE) IN
       IF q = 0 THEN Fail ELSE Done(q + 1, RawNode(cx, n, p, q))

Strikethrough(cx, p, st) == Delimited(cx, p, st, "Strikethrough", "Tilde", 2)
Italic(cx, p, st)        == Delimited(cx, p, st, "Italic", "Underscore", 1)
CodeSpan(cx, p, st)      == Delimited(cx, p, st, "CodeSpan", "Backtick", 1)
Emphasis(cx, p, st)      == Delimited(cx, p, st, "Emphasis", "Star", 1)

RECURSIVE BoldBody(_, _, _, _, _)
BoldBody(cx, p, st, from, ev) ==
  IF AtEnd(cx, p, st) THEN Fail
  ELSE IF IsKN(cx, p, "Star", 2)
       THEN Done(p + 1, ev \o TextEv(cx, from, p) \o <<EvE("Bold", Content(cx, p, p + 1))>>)
  ELSE LET s == Strikethrough(cx, p, st)
           r == IF s.ok THEN s ELSE Italic(cx, p, st) IN
       IF r.ok THEN BoldBody(cx, r.p, st, 0, ev \o TextEv(cx, from, p) \o r.ev)
       ELSE BoldBody(cx, p + 1, st, IF from = 0 THEN p ELSE from, ev)
Bold(cx, p, st) ==
  IF ~IsKN(cx, p, "Star", 2) THEN Fail
  ELSE BoldBody(cx, p + 1, st, 0, <<EvS("Bold", Content(cx, p, p + 1))>>)

Title(cx, p, st) ==
  IF ~IsKN(cx, p, "LeftSquareBracket", 1) THEN Fail
  ELSE LET q == Find(cx, p + 1, st, "RightSquareBracket", 1, FALSE) IN
       IF q = 0 THEN Fail ELSE Done(q + 1, RawNode(cx, "Title", p, q))

(* the closing parenthesis: the balancing one, else the last one before the end *)
RECURSIVE CloseParen(_, _, _, _, _)
CloseParen(cx, p, st, depth, last) ==
  IF AtEnd(cx, p, st) THEN last
  ELSE IF cx.tk[p].k = "LeftParenthesis" THEN CloseParen(cx, p + 1, st, depth + 1, last)
  ELSE IF cx.tk[p].k = "RightParenthesis"
       THEN IF depth = 1 THEN p ELSE CloseParen(cx, p + 1, st, depth - 1, p)
  ELSE CloseParen(cx, p + 1, st, depth, last)
Destination(cx, p, st) ==
  IF ~IsKN(cx, p, "LeftParenthesis", 1) THEN Fail
  ELSE LET q == CloseParen(cx, p + 1, st, 1, 0) IN
       IF q = 0 THEN Fail ELSE Done(q + 1, RawNode(cx, "Destination", p, q))

TitleDestination(cx, p, st) ==
  LET t == Title(cx, p, st) IN
  IF ~t.ok THEN Fail
  ELSE LET d == Destination(cx, t.p, st) IN
       IF ~d.ok THEN Fail ELSE Done(d.p, t.ev \o d.ev)

Anchor(cx, p, st) ==
  LET r == TitleDestination(cx, p, st) IN
  IF ~r.ok THEN Fail
  ELSE Done(r.p, <<EvS("Anchor", NoContent)>> \o r.ev \o <<EvE("Anchor", NoContent)>>)

Inline(cx, p, st) ==
  CASE IsKN(cx, p, "Tilde", 2)             -> Strikethrough(cx, p, st)
    [] IsKN(cx, p, "Underscore", 1)        -> Italic(cx, p, st)
    [] IsKN(cx, p, "Star", 2)              -> Bold(cx, p, st)
    [] IsKN(cx, p, "LeftSquareBracket", 1) -> Anchor(cx, p, st)
    [] IsKN(cx, p, "Backtick", 1)          -> CodeSpan(cx, p, st)
    [] IsKN(cx, p, "Star", 1)              -> Emphasis(cx, p, st)
    [] OTHER                               -> Fail

RECURSIVE InlineRun(_, _, _, _, _)
InlineRun(cx, p, st, from, ev) ==
  IF AtEnd(cx, p, st) THEN Done(p, ev \o TextEv(cx, from, p))
  ELSE LET r == Inline(cx, p, st) IN
       IF r.ok THEN InlineRun(cx, r.p, st, 0, ev \o TextEv(cx, from, p) \o r.ev)
       ELSE InlineRun(cx, p + 1, st, IF from = 0 THEN p ELSE from, ev)

Paragraph(cx, p, st) ==
  LET r == InlineRun(cx, p, st, 0, <<EvS("Paragraph", NoContent)>>) IN
  Done(r.p, Append(r.ev, EvE("Paragraph", NoContent)))

--------------------------------------------------------------------------------
(* leaf blocks *)
RECURSIVE HeadingRun(_, _, _, _, _)
HeadingRun(cx, p, st, from, ev) ==
  IF AtEnd(cx, p, st) THEN Done(p, ev \o TextEv(cx, from, p))
  ELSE LET r == Anchor(cx, p, st) IN
       IF r.ok THEN HeadingRun(cx, r.p, st, 0, ev \o TextEv(cx, from, p) \o r.ev)
       ELSE HeadingRun(cx, p + 1, st, IF from = 0 THEN p ELSE from, ev)
Heading(cx, p, st) ==
  IF ~(IsK(cx, p, "Hash") /\ Col0(cx, p) /\ cx.tk[p].e - cx.tk[p].s <= 6 /\ IsKN(cx, p + 1, "Space", 1)) THEN Fail
  ELSE LET r == HeadingRun(cx, p + 2, st, 0, <<EvS("Heading", Content(cx, p, p + 2))>>) IN
       Done(r.p, Append(r.ev, EvE("Heading", NoContent)))

ThematicBreak(cx, p) ==
  IF ~IsKN0(cx, p, "Minus", 5) THEN Fail
  ELSE Done(p + 1, <<EvS("ThematicBreak", NoContent), EvV(Content(cx, p, p + 1)), EvE("ThematicBreak", NoContent)>>)

Image(cx, p, st) ==
  IF ~IsKN(cx, p, "Bang", 1) THEN Fail
  ELSE LET r == TitleDestination(cx, p + 1, st)
           s == <<EvS("Image", Content(cx, p, p + 1))>> IN
       IF ~r.ok THEN Fail
       ELSE IF IsK(cx, r.p, "Eol")
            THEN Done(r.p + 1, s \o r.ev \o <<EvE("Image", Content(cx, r.p, r.p + 1))>>)
       ELSE IF AtEnd(cx, r.p, st) THEN Done(r.p, s \o r.ev \o <<EvE("Image", NoContent)>>)
       ELSE Fail

RECURSIVE ImageRun(_, _, _, _, _)
ImageRun(cx, p, st, n, ev) ==
  LET r == Image(cx, p, st) IN
  IF r.ok THEN ImageRun(cx, r.p, st, n + 1, ev \o r.ev)
  ELSE IF ~AtEnd(cx, p, st) \/ n = 0 THEN Fail
  ELSE IF n = 1 THEN Done(p, ev)
  ELSE Done(p, <<EvS("Images", NoContent)>> \o ev \o <<EvE("Images", NoContent)>>)
Images(cx, p, st) == ImageRun(cx, p, st, 0, <<>>)

(* the end of a fenced construct whose closing mark is q: the mark and a line
   end, or the mark at a block boundary; 0 when neither follows *)
CloseEnd(cx, q, st) ==
  IF IsK(cx, q + 1, "Eol") THEN q + 2
  ELSE IF AtBoundary(cx, q + 1, st) THEN q + 1 ELSE 0

(* rest of an opening line: title of a callout or collapsible, language of code *)
Modifier(cx, p, st) ==
  IF Col0(cx, p) THEN Fail
  ELSE LET q == FindLineEnd(cx, p, st) IN
       IF q = 0 THEN Fail
       ELSE Done(q + 1, <<EvS("Modifier", NoContent), EvV(Content(cx, p, q)), EvE("Modifier", Content(cx, q, q + 1))>>)

Optional(r, p) == IF r.ok THEN r ELSE Done(p, <<>>)

Code(cx, p, st) ==
  IF ~IsKN0(cx, p, "Backtick", 3) THEN Fail
  ELSE LET bare == IsK(cx, p + 1, "Eol")
           o    == IF bare THEN p + 2 ELSE p + 1
           m    == IF bare THEN Done(o, <<>>) ELSE Optional(Modifier(cx, o, <<>>), o)
           q    == Find(cx, m.p, <<>>, "Backtick", 3, TRUE) IN
       IF q = 0 THEN Fail
       ELSE LET z == CloseEnd(cx, q, st) IN
            IF z = 0 THEN Fail
            ELSE Done(z, <<EvS("Code", Content(cx, p, o))>> \o m.ev
                         \o <<EvV(Content(cx, m.p, q)), EvE("Code", Content(cx, q, z))>>)

Embed(cx, p, st) ==
  IF ~IsKN0(cx, p, "LeftCurlyBrace", 2) THEN Fail
  ELSE LET b == Find(cx, p + 1, st, "Pipe", 1, FALSE) IN
       IF b = 0 THEN Fail
       ELSE LET q == Find(cx, b + 1, st, "RightCurlyBrace", 2, FALSE) IN
            IF q = 0 THEN Fail
            ELSE LET z == CloseEnd(cx, q, st) IN
                 IF z = 0 THEN Fail
                 ELSE Done(z, <<EvS("Embed", Content(cx, p, p + 1)), EvV(Content(cx, p + 1, b)),
                                EvV(Content(cx, b, b + 1)), EvV(Content(cx, b + 1, q)),
                                EvE("Embed", Content(cx, q, z))>>)

--------------------------------------------------------------------------------
(* callouts *)
Icon(cx, p, st) ==
  IF ~(IsKN0(cx, p, "Bang", 1) /\ IsKN(cx, p + 1, "Space", 1)) THEN Fail
  ELSE LET q == Find(cx, p + 2, st \o <<StopTerm>>, "Eol", 0, FALSE) IN
       IF q = 0 THEN Fail
       ELSE Done(q + 1, <<EvS("Icon", Content(cx, p, p + 2)), EvV(Content(cx, p + 2, q)), EvE("Icon", Content(cx, q, q + 1))>>)

RECURSIVE HighlightRun(_, _, _, _)
HighlightRun(cx, p, st, ev) ==
  IF AtEnd(cx, p, st) THEN Fail
  ELSE IF IsKN0(cx, p, "Bang", 2)
       THEN LET z == IF IsK(cx, p + 1, "Eol") THEN p + 2 ELSE p + 1 IN
            Done(z, Append(ev, EvE("Highlight", Content(cx, p, z))))
  ELSE LET sep == IsK(cx, p, "Terminator")
           q   == IF sep THEN p + 1 ELSE p
           s   == IF sep THEN <<EvV(Content(cx, p, q))>> ELSE <<>>
           r   == Paragraph(cx, q, st \o <<StopHigh, StopTerm>>) IN
       HighlightRun(cx, r.p, st, ev \o s \o r.ev)
Highlight(cx, p, st) ==
  IF ~(IsKN0(cx, p, "Bang", 2) /\ (IsKN(cx, p + 1, "Space", 1) \/ IsK(cx, p + 1, "Eol"))) THEN Fail
  ELSE LET m == IF IsK(cx, p + 1, "Eol") THEN Done(p + 2, <<>>) ELSE Optional(Modifier(cx, p + 2, st), p + 2)
           i == Optional(Icon(cx, m.p, st), m.p) IN
       IF ~Col0(cx, i.p) THEN Fail
       ELSE HighlightRun(cx, i.p, st, <<EvS("Highlight", Content(cx, p, p + 2))>> \o m.ev \o i.ev)

--------------------------------------------------------------------------------
(* lists *)
RECURSIVE ListFrom(_, _, _, _)
RECURSIVE ListRun(_, _, _, _, _, _)

(* one item whose marker is known to be at p *)
ListItem(cx, p, st, lv, kd) ==
  LET q == p + (IF lv = 0 THEN 2 ELSE 3)
      t == Paragraph(cx, q, st \o <<StopList(lv, kd)>>)
      n == IF AtEnd(cx, t.p, st) THEN Fail ELSE ListFrom(cx, t.p, st, lv + 1)
      r == Optional(n, t.p) IN
  Done(r.p, <<EvS("ListItem", Content(cx, p, q))>> \o t.ev \o r.ev \o <<EvE("ListItem", NoContent)>>)

ListRun(cx, p, st, lv, kd, ev) ==
  IF ~ListMarkerAt(cx, p, lv, kd) THEN Done(p, Append(ev, EvE(kd, NoContent)))
  ELSE LET r == ListItem(cx, p, st, lv, kd) IN ListRun(cx, r.p, st, lv, kd, ev \o r.ev)

ListFrom(cx, p, st, lv) ==
  IF ~ListMarkerAt(cx, p, lv, "") THEN Fail
  ELSE LET kd == MarkerKind(cx, IF lv = 0 THEN p ELSE p + 1) IN
       ListRun(cx, p, st, lv, kd, <<EvS(kd, NoContent)>>)

--------------------------------------------------------------------------------
(* blocks: state [src, tk, p, ev, open, fin]; open is the stack of collapsibles
   being parsed, each with the position and event count to go back to *)
DocStops(b) == IF b.open = <<>> THEN <<>> ELSE <<StopColl>>

Metadata(cx) ==
  IF ~IsKN0(cx, 1, "Minus", 3) THEN Fail
  ELSE LET q == Find(cx, 2, <<>>, "Minus", 3, TRUE) IN
       IF q = 0 THEN Fail ELSE Done(q + 1, RawNode(cx, "Metadata", 1, q))

BlockInit(src, tk) ==
  LET m == Optional(Metadata([src |-> src, tk |-> tk]), 1) IN
  [src |-> src, tk |-> tk, p |-> m.p, ev |-> Append(m.ev, EvS("Document", NoContent)), open |-> <<>>, fin |-> FALSE]

BlockTake(b, r) == [b EXCEPT !.p = r.p, !.ev = @ \o r.ev]

(* an opener that turned out to have no valid title or closer is plain text *)
Demote(b, p) == [b EXCEPT !.tk = [@ EXCEPT ![p].k = "Literal"], !.p = p]

CollapsibleHead(b) ==
  IsK(b, b.p, "CollapsibleStart") /\ Col0(b, b.p) /\ (IsK(b, b.p + 1, "Space") \/ IsK(b, b.p + 1, "Eol"))

CollapsibleOpen(b) ==
  LET m == Optional(Modifier(b, b.p + 2, <<>>), b.p + 2) IN   \* to the end of the line, whatever comes next
  IF ~Col0(b, m.p) THEN Demote(b, b.p)
  ELSE [b EXCEPT !.p = m.p, !.open = Append(@, [p |-> b.p, n |-> Len(b.ev)]),
                 !.ev = @ \o <<EvS("Collapsible", Content(b, b.p, b.p + 2))>> \o m.ev
                          \o <<EvS("Document", NoContent)>>]

CollapsibleClose(b) ==
  LET q == IF IsK(b, b.p, "Eol") THEN b.p + 1 ELSE b.p
      o == b.open[Len(b.open)]
      c == [b EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)] IN
  IF IsK(b, q, "CollapsibleEnd") /\ Col0(b, q)
  THEN LET z == IF IsK(b, q + 1, "Eol") THEN q + 2 ELSE q + 1 IN
       [c EXCEPT !.p = z, !.ev = @ \o <<EvE("Document", NoContent), EvE("Collapsible", Content(b, q, z))>>]
  ELSE Demote([c EXCEPT !.ev = SubSeq(@, 1, o.n)], o.p)

(* the next move of the block machine: a is its name, b the state after it *)
Move(a, b) == [a |-> a, b |-> b]

InnerMove(b) ==
  LET s2 == DocStops(b) \o <<StopTerm>>
      l == ListFrom(b, b.p, s2, 0) IN
  IF l.ok THEN Move("list", BlockTake(b, l))
  ELSE LET i == Images(b, b.p, s2) IN
  IF i.ok THEN Move("images", BlockTake(b, i))
  ELSE LET k == ThematicBreak(b, b.p) IN
  IF k.ok THEN Move("break", BlockTake(b, k))
  ELSE LET h == Heading(b, b.p, s2) IN
  IF h.ok THEN Move("heading", BlockTake(b, h))
  ELSE Move("paragraph", BlockTake(b, Paragraph(b, b.p, s2)))

BlockMove(b) ==
  LET st == DocStops(b) IN
  IF AtEnd(b, b.p, st)
  THEN IF b.open = <<>> THEN Move("finish", [b EXCEPT !.fin = TRUE, !.ev = Append(@, EvE("Document", NoContent))])
       ELSE LET c == CollapsibleClose(b) IN Move(IF c.p > b.p THEN "close" ELSE "abandon", c)
  ELSE IF IsK(b, b.p, "Terminator")
  THEN Move("separator", BlockTake(b, Done(b.p + 1, <<EvV(Content(b, b.p, b.p + 1))>>)))
  ELSE LET c == Code(b, b.p, st) IN
  IF c.ok THEN Move("code", BlockTake(b, c))
  ELSE IF CollapsibleHead(b)
  THEN LET o == CollapsibleOpen(b) IN Move(IF Len(o.open) > Len(b.open) THEN "open" ELSE "reject", o)
  ELSE LET e == Embed(b, b.p, st \o <<StopTerm>>) IN
  IF e.ok THEN Move("embed", BlockTake(b, e))
  ELSE LET h == Highlight(b, b.p, st) IN
  IF h.ok THEN Move("highlight", BlockTake(b, h))
  ELSE InnerMove(b)

BlockStep(b) == BlockMove(b).b

RECURSIVE BlocksFrom(_)
BlocksFrom(b) == IF b.fin THEN b.ev ELSE BlocksFrom(BlockStep(b))
ParseTokens(src, tk) == BlocksFrom(BlockInit(src, tk))
Parse(src) == ParseTokens(src, Lex(src))
=============================================================================
