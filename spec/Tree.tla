-------------------------------- MODULE Tree --------------------------------
(* From the event stream to the document tree, and from the tree to text.      *)
(*                                                                             *)
(* Optional values are <<>> or <<v>>.  Blocks and inlines are records tagged   *)
(* by t.                                                                       *)
EXTENDS Parser

Txt(s)             == [t |-> "Text", s |-> s]
LeafNode(n, s)     == [t |-> n, s |-> s]
BoldNode(b)        == [t |-> "Bold", body |-> b]
AnchorNode(s, u)   == [t |-> "Anchor", text |-> s, url |-> u]
ParaNode(b)        == [t |-> "Paragraph", body |-> b]
HeadNode(l, b)     == [t |-> "Heading", level |-> l, body |-> b]
ImageNode(a, s)    == [t |-> "Image", alt |-> a, src |-> s]
ImagesNode(b)      == [t |-> "Images", body |-> b]
CodeNode(l, c)     == [t |-> "Code", lang |-> l, code |-> c]
ListNode(k, l, b)  == [t |-> "List", kind |-> k, level |-> l, body |-> b]
ItemNode(s, n)     == [text |-> s, nested |-> n]
HighNode(h, i, b)  == [t |-> "Highlight", title |-> h, icon |-> i, body |-> b]
BreakNode          == [t |-> "ThematicBreak"]
EmbedNode(k, a)    == [t |-> "Embed", kind |-> k, args |-> a]
CollNode(h, b)     == [t |-> "Collapsible", title |-> h, body |-> b]
DocNode(m, b)      == [meta |-> m, body |-> b]

--------------------------------------------------------------------------------
(* the tree builder: a stack of frames, one event per step *)
Frame(f, lv) == [f |-> f, lv |-> lv, t1 |-> <<>>, t2 |-> <<>>, o1 |-> <<>>, o2 |-> <<>>, body |-> <<>>]

BuildInit == [stack |-> <<Frame("Yamd", 0)>>, err |-> FALSE]

Top(st) == st[Len(st)]
SetTop(st, f) == [st EXCEPT ![Len(st)] = f]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
IsListFrame(f) == f.f = "UnorderedList" \/ f.f = "OrderedList"
ListDepth(st) == Cardinality({i \in 1..Len(st) : IsListFrame(st[i])})

RECURSIVE CountHash(_, _)
CountHash(s, i) == IF At(s, i) = HASH THEN CountHash(s, i + 1) ELSE i - 1

StartLevel(st, e) ==
  IF e.n = "Heading" THEN CountHash(e.x.w, 1)
  ELSE IF e.n = "UnorderedList" \/ e.n = "OrderedList" THEN ListDepth(st) ELSE 0

LeafFrames == {"Italic", "Strikethrough", "CodeSpan", "Emphasis", "Title", "Destination", "Modifier", "Icon", "Metadata", "Code"}

TakeValue(f, w) ==
  IF f.f \in {"Heading", "Paragraph", "Bold"} THEN [f EXCEPT !.body = Append(@, Txt(w))]
  ELSE IF f.f = "Embed" THEN [f EXCEPT !.body = Append(@, w)]
  ELSE IF f.f \in LeafFrames THEN [f EXCEPT !.t1 = @ \o w]
  ELSE f

(* the line break that ends a list item or a callout paragraph is not text *)
TrimLastText(b) ==
  IF b # <<>> /\ b[Len(b)].t = "Text"
  THEN LET s == TrimEnd(b[Len(b)].s) IN
       IF s = <<>> THEN SubSeq(b, 1, Len(b) - 1) ELSE [b EXCEPT ![Len(b)] = Txt(s)]
  ELSE b

AddTo(p, x) == [p EXCEPT !.body = Append(@, x)]
AddIf(p, hosts, x) == IF p.f \in hosts THEN AddTo(p, x) ELSE p

(* fold the closed frame f into its parent p *)
Fold(f, p) ==
  CASE f.f = "Document" ->
         IF p.f = "Collapsible" THEN [p EXCEPT !.body = f.body]
         ELSE IF p.f = "Yamd" THEN [p EXCEPT !.body = @ \o f.body] ELSE p
    [] f.f = "Metadata" -> IF p.f = "Yamd" THEN [p EXCEPT !.o1 = <<Trim(f.t1)>>] ELSE p
    [] f.f = "Heading"  -> AddIf(p, {"Document"}, HeadNode(f.lv, f.body))
    [] f.f = "Paragraph" ->
         IF p.f = "Highlight" THEN AddTo(p, ParaNode(TrimLastText(f.body)))
         ELSE IF p.f = "ListItem" THEN [p EXCEPT !.body = TrimLastText(f.body)]
         ELSE AddIf(p, {"Document"}, ParaNode(f.body))
    [] f.f = "Bold"     -> AddIf(p, {"Paragraph"}, BoldNode(f.body))
    [] f.f \in {"Italic", "Strikethrough"} -> AddIf(p, {"Paragraph", "Bold"}, LeafNode(f.f, f.t1))
    [] f.f \in {"CodeSpan", "Emphasis"}    -> AddIf(p, {"Paragraph"}, LeafNode(f.f, f.t1))
    [] f.f = "Title"       -> IF p.f \in {"Anchor", "Image"} THEN [p EXCEPT !.t1 = f.t1] ELSE p
    [] f.f = "Destination" -> IF p.f \in {"Anchor", "Image"} THEN [p EXCEPT !.t2 = f.t1] ELSE p
    [] f.f = "Anchor"   -> AddIf(p, {"Paragraph", "Heading"}, AnchorNode(f.t1, f.t2))
    [] f.f = "Image"    -> AddIf(p, {"Images", "Document"}, ImageNode(f.t1, f.t2))
    [] f.f = "Images"   -> AddIf(p, {"Document"}, ImagesNode(f.body))
    [] f.f = "Code"     -> AddIf(p, {"Document"}, CodeNode(f.t2, TrimEnd(f.t1)))
    [] f.f = "Modifier" ->
         IF p.f = "Code" THEN [p EXCEPT !.t2 = f.t1]
         ELSE IF p.f = "Highlight" THEN [p EXCEPT !.o1 = <<f.t1>>]
         ELSE IF p.f = "Collapsible" THEN [p EXCEPT !.t1 = f.t1] ELSE p
    [] f.f = "Icon"     -> IF p.f = "Highlight" THEN [p EXCEPT !.o2 = <<f.t1>>] ELSE p
    [] f.f = "Embed"    ->
         AddIf(p, {"Document"}, EmbedNode(IF Len(f.body) >= 1 THEN f.body[1] ELSE <<>>,
                                          IF Len(f.body) >= 3 THEN f.body[3] ELSE <<>>))
    [] f.f = "ThematicBreak" -> AddIf(p, {"Document"}, BreakNode)
    [] f.f = "Highlight"     -> AddIf(p, {"Document"}, HighNode(f.o1, f.o2, f.body))
    [] f.f = "Collapsible"   -> AddIf(p, {"Document"}, CollNode(f.t1, f.body))
    [] f.f \in {"UnorderedList", "OrderedList"} ->
         LET l == ListNode(f.f, f.lv, f.body) IN
         IF p.f = "ListItem" THEN [p EXCEPT !.o1 = <<l>>] ELSE AddIf(p, {"Document"}, l)
    [] f.f = "ListItem" -> AddIf(p, {"UnorderedList", "OrderedList"}, ItemNode(f.body, f.o1))
    [] OTHER -> p

BuildStep(bs, e) ==
  IF bs.err THEN bs
  ELSE CASE e.o = "S" -> [bs EXCEPT !.stack = Append(@, Frame(e.n, StartLevel(bs.stack, e)))]
         [] e.o = "V" -> [bs EXCEPT !.stack = SetTop(@, TakeValue(Top(@), e.x.w))]
         [] OTHER ->
            LET f == Top(bs.stack) IN
            IF Len(bs.stack) = 1 \/ f.f # e.n THEN [bs EXCEPT !.err = TRUE]
            ELSE LET r == Pop(bs.stack) IN [bs EXCEPT !.stack = SetTop(r, Fold(f, Top(r)))]

RECURSIVE BuildFrom(_, _, _)
BuildFrom(ev, i, bs) == IF i > Len(ev) THEN bs ELSE BuildFrom(ev, i + 1, BuildStep(bs, ev[i]))

(* [ok, tree]; the tree of a rejected stream is empty *)
BuildResult(bs) ==
  IF bs.err \/ Len(bs.stack) # 1 THEN [ok |-> FALSE, tree |-> DocNode(<<>>, <<>>)]
  ELSE [ok |-> TRUE, tree |-> DocNode(Top(bs.stack).o1, Top(bs.stack).body)]
Build(ev) == BuildResult(BuildFrom(ev, 1, BuildInit))

Tree(src) == Build(Parse(src)).tree

--------------------------------------------------------------------------------
(* printing *)
LF2 == <<LF, LF>>
CLOSER == <<PCT, RBRACE>>

(* a line break directly followed by another one is escaped *)
RECURSIVE EscBlankAcc(_, _, _)
EscBlankAcc(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = LF /\ (At(s, i + 1) = LF \/ (At(s, i + 1) = CR /\ At(s, i + 2) = LF))
       THEN EscBlankAcc(s, i + 1, acc \o <<BSL, LF>>)
  ELSE EscBlankAcc(s, i + 1, Append(acc, s[i]))
EscBlank(s) == IF HasChar(s, LF) THEN EscBlankAcc(s, 1, <<>>) ELSE s
(* raw text inside an inline construct *)
EscRaw(s) == Esc(EscBlank(s), CLOSER)
EscSpace(s) == IF At(s, 1) = SP THEN <<BSL>> \o s ELSE s
EscEndCR(s) == IF Len(s) > 0 /\ s[Len(s)] = CR THEN SubSeq(s, 1, Len(s) - 1) \o <<BSL, CR>> ELSE s
(* text that has to stay on one line *)
EscLine(s) == EscEndCR(EscSpace(EscChar(EscChar(s, BSL), LF)))

ShowText(s) ==
  LET a == EscChar(EscChar(EscChar(EscChar(EscChar(EscChar(EscChar(s, BSL), STAR), USCORE), TILDE), TICK), LSQ), LBRACE)
      b == Replace(Replace(a, LF2, <<BSL, LF, BSL, LF>>), <<LF, CR>>, <<LF, BSL, CR>>)
  IN  Esc(b, CLOSER)

ShowAnchor(n) ==
  <<LSQ>> \o EscRaw(EscChar(EscChar(EscChar(n.text, BSL), LSQ), RSQ)) \o <<RSQ, LPAR>>
  \o EscRaw(EscChar(EscChar(EscChar(n.url, BSL), LPAR), RPAR)) \o <<RPAR>>
ShowImage(n) ==
  <<BANG, LSQ>> \o EscRaw(EscChar(EscChar(n.alt, BSL), RSQ)) \o <<RSQ, LPAR>>
  \o EscRaw(EscChar(EscChar(EscChar(n.src, BSL), LPAR), RPAR)) \o <<RPAR>>

ShowItalic(s) == <<USCORE>> \o EscRaw(EscChar(EscChar(s, BSL), USCORE)) \o <<USCORE>>
ShowStrike(s) == <<TILDE, TILDE>> \o EscRaw(EscChar(EscChar(s, BSL), TILDE)) \o <<TILDE, TILDE>>
ShowEmph(s)   == <<STAR>> \o EscRaw(EscChar(EscChar(s, BSL), STAR)) \o <<STAR>>
ShowCodeSpan(s) ==
  IF s = <<>> THEN <<>> ELSE <<TICK>> \o EscRaw(EscChar(EscChar(s, BSL), TICK)) \o <<TICK>>

ShowBoldPart(n) ==
  CASE n.t = "Italic"        -> ShowItalic(n.s)
    [] n.t = "Strikethrough" -> ShowStrike(n.s)
    [] OTHER -> EscRaw(EscChar(EscChar(EscChar(EscChar(n.s, BSL), STAR), USCORE), TILDE))
ShowBold(n) ==
  IF \A i \in 1..Len(n.body) : n.body[i].t = "Text" /\ n.body[i].s = <<>> THEN <<>>
  ELSE <<STAR, STAR>>
       \o Concat([i \in 1..Len(n.body) |-> Esc(ShowBoldPart(n.body[i]), <<STAR, STAR>>)])
       \o <<STAR, STAR>>

ShowInline(n) ==
  CASE n.t = "Text"          -> ShowText(n.s)
    [] n.t = "Anchor"        -> ShowAnchor(n)
    [] n.t = "Bold"          -> ShowBold(n)
    [] n.t = "Italic"        -> ShowItalic(n.s)
    [] n.t = "Strikethrough" -> ShowStrike(n.s)
    [] n.t = "CodeSpan"      -> ShowCodeSpan(n.s)
    [] OTHER                 -> ShowEmph(n.s)
ShowInlines(b) == Concat([i \in 1..Len(b) |-> ShowInline(b[i])])

RECURSIVE RunLen(_, _, _)
RunLen(s, i, c) == IF At(s, i) = c THEN RunLen(s, i + 1, c) ELSE i - 1
HeadingMark(s) == LET n == RunLen(s, 1, HASH) IN n >= 1 /\ At(s, n + 1) = SP

(* a paragraph that would read as another block gets a backslash in front, and *)
(* so does a line break that would otherwise meet another one                  *)
LeadEsc(s) ==
  IF \/ StartsWith(s, <<DASH, SP>>) \/ StartsWith(s, <<PLUS, SP>>) \/ HeadingMark(s)
     \/ StartsWith(s, <<BANG, BANG>>) \/ StartsWith(s, <<BANG, LSQ>>) \/ StartsWith(s, <<DASH, DASH, DASH>>)
     \/ At(s, 1) = LF \/ StartsWith(s, <<CR, LF>>)
  THEN <<BSL>> \o s ELSE s
RECURSIVE BackslashesBefore(_, _)
BackslashesBefore(s, i) == IF At(s, i - 1) = BSL THEN 1 + BackslashesBefore(s, i - 1) ELSE 0
TailEsc(s) ==
  IF Len(s) > 0 /\ s[Len(s)] \in {LF, CR} /\ BackslashesBefore(s, Len(s)) % 2 = 0
  THEN SubSeq(s, 1, Len(s) - 1) \o <<BSL, s[Len(s)]>> ELSE s

ShowHeadPart(n) ==
  IF n.t = "Anchor" THEN ShowAnchor(n)
  ELSE EscChar(EscChar(EscRaw(EscChar(n.s, BSL)), HASH), LSQ)
ShowHeading(n) ==
  Repeat(HASH, n.level) \o <<SP>> \o EscSpace(Concat([i \in 1..Len(n.body) |-> ShowHeadPart(n.body[i])]))

ShowCode(n) ==
  <<TICK, TICK, TICK>> \o EscEndCR(EscChar(EscChar(EscChar(n.lang, BSL), TICK), LF)) \o <<LF>>
  \o (IF At(n.code, 1) = LF \/ StartsWith(n.code, <<CR, LF>>) THEN <<BSL>> ELSE <<>>)
  \o Esc(EscChar(n.code, BSL), <<TICK, TICK, TICK>>) \o <<LF, TICK, TICK, TICK>>

ShowEmbed(n) ==
  <<LBRACE, LBRACE>> \o EscRaw(EscChar(EscChar(EscChar(n.kind, BSL), LBRACE), PIPE)) \o <<PIPE>>
  \o EscBlank(EscChar(EscChar(EscChar(EscChar(n.args, BSL), LBRACE), PCT), RBRACE)) \o <<RBRACE, RBRACE>>

(* one paragraph of a callout; an empty one is written as an escaped line break *)
ShowHighPara(p, first) ==
  LET s == Esc(ShowInlines(p.body), <<BANG, BANG>>) IN
  IF s = <<>> THEN <<BSL, LF>>
  ELSE IF first /\ StartsWith(s, <<BANG, SP>>) THEN <<BSL>> \o s
  ELSE LeadEsc(s)
ShowHighlight(n) ==
  <<BANG, BANG>> \o (IF n.title = <<>> THEN <<>> ELSE <<SP>> \o EscLine(n.title[1])) \o <<LF>>
  \o (IF n.icon = <<>> THEN <<>> ELSE <<BANG, SP>> \o EscLine(n.icon[1]) \o <<LF>>)
  \o Join([i \in 1..Len(n.body) |-> ShowHighPara(n.body[i], i = 1 /\ n.icon = <<>>)], LF2)
  \o (IF n.body = <<>> THEN <<>> ELSE <<LF>>) \o <<BANG, BANG>>

(* the text of an item: what looks like an item marker on a later line is escaped *)
RECURSIVE EscMarkers(_, _, _)
EscMarkers(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] # LF THEN EscMarkers(s, i + 1, Append(acc, s[i]))
  ELSE LET q == RunLen(s, i + 1, SP) + 1 IN
       IF At(s, q) \in {DASH, PLUS} /\ At(s, q + 1) = SP
       THEN EscMarkers(s, q + 1, acc \o SubSeq(s, i, q - 1) \o <<BSL, s[q]>>)
       ELSE EscMarkers(s, i + 1, Append(acc, s[i]))

RECURSIVE ShowList(_)
ShowItem(it) ==
  EscSpace(EscMarkers(ShowInlines(it.text), 1, <<>>))
  \o (IF it.nested = <<>> THEN <<>> ELSE <<LF>> \o ShowList(it.nested[1]))
ShowList(n) ==
  LET m == IF n.kind = "OrderedList" THEN PLUS ELSE DASH IN
  Join([i \in 1..Len(n.body) |-> Repeat(SP, n.level) \o <<m, SP>> \o ShowItem(n.body[i])], <<LF>>)

RECURSIVE ShowBlock(_)
ShowBody(b) ==
  Join([i \in 1..Len(b) |->
          LET s == IF b[i].t = "Paragraph" THEN LeadEsc(ShowInlines(b[i].body)) ELSE ShowBlock(b[i])
          IN  IF b[i].t \in {"Paragraph", "Heading"} THEN TailEsc(s) ELSE s], LF2)
ShowBlock(n) ==
  CASE n.t = "Paragraph"     -> ShowInlines(n.body)
    [] n.t = "Heading"       -> ShowHeading(n)
    [] n.t = "Image"         -> ShowImage(n)
    [] n.t = "Images"        -> Join([i \in 1..Len(n.body) |-> ShowImage(n.body[i])], <<LF>>)
    [] n.t = "Code"          -> ShowCode(n)
    [] n.t = "List"          -> ShowList(n)
    [] n.t = "Highlight"     -> ShowHighlight(n)
    [] n.t = "ThematicBreak" -> Repeat(DASH, 5)
    [] n.t = "Embed"         -> ShowEmbed(n)
    [] OTHER -> <<LBRACE, PCT, SP>> \o Esc(EscLine(n.title), CLOSER) \o <<LF>>
                \o ShowBody(n.body) \o <<LF, PCT, RBRACE>>

(* metadata: backslashes and lines that start with exactly three dashes *)
RECURSIVE EscFence(_, _, _)
EscFence(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF (i = 1 \/ s[i - 1] = LF) /\ RunLen(s, i, DASH) = i + 2
       THEN EscFence(s, i + 1, acc \o <<BSL, DASH>>)
  ELSE EscFence(s, i + 1, Append(acc, s[i]))

Show(d) ==
  (IF d.meta = <<>> THEN <<>>
   ELSE LET m == EscFence(EscChar(d.meta[1], BSL), 1, <<>>) IN
        <<DASH, DASH, DASH, LF>> \o m \o (IF EndsWith(m, <<LF>>) THEN <<>> ELSE <<LF>>) \o <<DASH, DASH, DASH, LF, LF>>)
  \o ShowBody(d.body)
RoundTrips(d) == Tree(Show(d)) = d
=============================================================================
