-------------------------------- MODULE Trees --------------------------------
(* Trees built through the API (C19, C20).  One step adds a block, adds to the *)
(* last block (an inline node, an item, a nested list, a paragraph, an image,  *)
(* a block in a collapsible), or appends a piece to the last text.             *)
EXTENDS JsonForm, TLC, Json, CSV, IOUtils

CONSTANTS Kinds,     \* sequence of block kinds that may be added
          Inls,      \* sequence of inline kinds that may be added
          Pieces,    \* sequence of texts that may be appended
          MaxSteps

VARIABLES doc, n
vars == <<doc, n>>

A == <<97>>  B == <<98>>
Kinds_all  == <<"Paragraph", "Heading", "Image", "Images", "Code", "OrderedList", "UnorderedList", "Highlight", "ThematicBreak",
                "Embed", "Collapsible", "Metadata">>
Kinds_text == <<"Paragraph", "Heading", "UnorderedList", "Highlight">>
Kinds_raw  == <<"Image", "Images", "Code", "Embed", "Metadata", "Collapsible">>
Kinds_nest == <<"Collapsible", "UnorderedList", "OrderedList", "Highlight", "Paragraph">>
Kinds_para == <<"Paragraph">>
Inls_all   == <<"Text", "Bold", "Italic", "Strikethrough", "CodeSpan", "Emphasis", "Anchor">>
Inls_text  == <<"Text">>
Inls_few   == <<"Text", "Bold", "Italic">>
Pieces_line  == <<A, <<SP>>, <<LF>>, <<DASH>>, <<PLUS>>, <<HASH>>, <<BANG>>, <<BSL>>>>
Pieces_mark  == <<A, <<STAR>>, <<USCORE>>, <<TILDE>>, <<TICK>>, <<BSL>>, <<LSQ>>>>
Pieces_raw   == <<A, <<BSL>>, <<TICK>>, <<PIPE>>, <<RBRACE>>, <<RPAR>>, <<LPAR>>, <<RSQ>>, <<LF>>>>
Pieces_block == <<A, <<LBRACE, PCT>>, <<PCT, RBRACE>>, <<DASH, DASH, DASH>>, <<TICK, TICK, TICK>>, <<BANG, BANG>>, <<LF>>>>

Inl(t) == CASE t = "Bold" -> BoldNode(<<Txt(B)>>) [] t = "Anchor" -> AnchorNode(B, B) [] OTHER -> LeafNode(t, B)
NewBlock(t) ==
  CASE t = "Paragraph"   -> ParaNode(<<Txt(A)>>)
    [] t = "Heading"     -> HeadNode(2, <<Txt(A)>>)
    [] t = "Image"       -> ImageNode(A, A)
    [] t = "Images"      -> ImagesNode(<<ImageNode(A, A), ImageNode(B, B)>>)
    [] t = "Code"        -> CodeNode(A, A)
    [] t \in {"OrderedList", "UnorderedList"} -> ListNode(t, 0, <<ItemNode(<<Txt(A)>>, <<>>)>>)
    [] t = "Highlight"   -> HighNode(<<>>, <<>>, <<ParaNode(<<Txt(A)>>)>>)
    [] t = "ThematicBreak" -> BreakNode
    [] t = "Embed"       -> EmbedNode(A, A)
    [] OTHER             -> CollNode(A, <<ParaNode(<<Txt(A)>>)>>)

Front(s) == SubSeq(s, 1, Len(s) - 1)
LastOf(s) == s[Len(s)]

(* append w to the last text of a sequence of inlines, a list, a block *)
GrowInl(x, w) ==
  CASE x.t = "Bold" -> BoldNode(Front(x.body) \o <<LeafNode(LastOf(x.body).t, LastOf(x.body).s \o w)>>)
    [] x.t = "Anchor" -> AnchorNode(x.text, x.url \o w)
    [] OTHER -> LeafNode(x.t, x.s \o w)
GrowInls(b, w) == Front(b) \o <<GrowInl(LastOf(b), w)>>
RECURSIVE GrowList(_, _)
GrowList(l, w) ==
  LET it == LastOf(l.body) IN
  [l EXCEPT !.body = Front(@) \o <<IF it.nested = <<>> THEN ItemNode(GrowInls(it.text, w), <<>>)
                                   ELSE ItemNode(it.text, <<GrowList(it.nested[1], w)>>)>>]
RECURSIVE Grow(_, _)
Grow(b, w) ==
  CASE b.t \in {"Paragraph", "Heading"} -> [b EXCEPT !.body = GrowInls(@, w)]
    [] b.t = "Image"  -> [b EXCEPT !.src = @ \o w]
    [] b.t = "Images" -> [b EXCEPT !.body = Front(@) \o <<Grow(LastOf(@), w)>>]
    [] b.t = "Code"   -> [b EXCEPT !.code = @ \o w]
    [] b.t = "List"   -> GrowList(b, w)
    [] b.t \in {"Highlight", "Collapsible"} -> [b EXCEPT !.body = Front(@) \o <<Grow(LastOf(@), w)>>]
    [] b.t = "Embed"  -> [b EXCEPT !.args = @ \o w]
    [] OTHER -> b
(* append w to the title-like text of a block *)
RECURSIVE GrowHead(_, _)
GrowHead(b, w) ==
  CASE b.t = "Image"       -> [b EXCEPT !.alt = @ \o w]
    [] b.t = "Code"        -> [b EXCEPT !.lang = @ \o w]
    [] b.t = "Embed"       -> [b EXCEPT !.kind = @ \o w]
    [] b.t = "Collapsible" -> [b EXCEPT !.title = @ \o w]
    [] b.t = "Highlight"   -> [b EXCEPT !.title = IF @ = <<>> THEN <<w>> ELSE <<@[1] \o w>>]
    [] b.t = "Heading"     -> [b EXCEPT !.level = @ + 1]
    [] OTHER -> b

(* add an inline node at the end of what holds inlines *)
RECURSIVE AddInlList(_, _)
AddInlList(l, x) ==
  LET it == LastOf(l.body) IN
  [l EXCEPT !.body = Front(@) \o <<IF it.nested = <<>> THEN ItemNode(Append(it.text, x), <<>>)
                                   ELSE ItemNode(it.text, <<AddInlList(it.nested[1], x)>>)>>]
RECURSIVE AddInl(_, _)
AddInl(b, x) ==
  CASE b.t = "Paragraph" -> [b EXCEPT !.body = Append(@, x)]
    [] b.t = "Heading"   -> IF x.t \in {"Text", "Anchor"} THEN [b EXCEPT !.body = Append(@, x)] ELSE b
    [] b.t = "List"      -> AddInlList(b, x)
    [] b.t \in {"Highlight", "Collapsible"} -> [b EXCEPT !.body = Front(@) \o <<AddInl(LastOf(@), x)>>]
    [] OTHER -> b

(* add a part: item, nested list, callout icon or paragraph, image, block in a collapsible *)
RECURSIVE AddItem(_)
AddItem(l) ==
  LET it == LastOf(l.body) IN
  IF it.nested = <<>> THEN [l EXCEPT !.body = Append(@, ItemNode(<<Txt(A)>>, <<>>))]
  ELSE [l EXCEPT !.body = Front(@) \o <<ItemNode(it.text, <<AddItem(it.nested[1])>>)>>]
RECURSIVE Deepen(_, _)
Deepen(l, t) ==
  LET it == LastOf(l.body) IN
  [l EXCEPT !.body = Front(@) \o <<ItemNode(it.text, IF it.nested = <<>> THEN <<ListNode(t, l.level + 1, <<ItemNode(<<Txt(A)>>, <<>>)>>)>>
                                                     ELSE <<Deepen(it.nested[1], t)>>)>>]
RECURSIVE AddPart(_, _)
AddPart(b, v) ==
  CASE b.t = "List" -> IF v = 0 THEN AddItem(b) ELSE IF v = 1 THEN Deepen(b, "UnorderedList")
                       ELSE IF v = 2 THEN Deepen(b, "OrderedList") ELSE [b EXCEPT !.body = Append(@, ItemNode(<<Txt(B)>>, <<>>))]
    [] b.t = "Highlight" -> IF v = 0 THEN [b EXCEPT !.body = Append(@, ParaNode(<<Txt(A)>>))]
                            ELSE IF v = 1 THEN [b EXCEPT !.icon = <<A>>] ELSE b
    [] b.t = "Images" -> IF v = 0 THEN [b EXCEPT !.body = Append(@, ImageNode(A, B))] ELSE b
    [] b.t = "Collapsible" -> IF v = 0 THEN b ELSE [b EXCEPT !.body = Front(@) \o <<AddPart(LastOf(@), v)>>]
    [] b.t = "Paragraph" -> IF v = 1 /\ LastOf(b.body).t = "Bold"
                            THEN [b EXCEPT !.body = Front(@) \o <<BoldNode(Append(LastOf(@).body, LeafNode("Italic", A)))>>] ELSE b
    [] OTHER -> b
(* a block inside the last collapsible *)
RECURSIVE AddInside(_, _)
AddInside(b, x) ==
  IF LastOf(b.body).t = "Collapsible" THEN [b EXCEPT !.body = Front(@) \o <<AddInside(LastOf(@), x)>>]
  ELSE [b EXCEPT !.body = Append(@, x)]

Init == doc = DocNode(<<>>, <<>>) /\ n = 0
Has0 == doc.body # <<>>
SetLast(b) == doc' = [doc EXCEPT !.body = Front(@) \o <<b>>]
Last1 == LastOf(doc.body)
AddBlock ==
  \E i \in 1..Len(Kinds) :
    doc' = IF Kinds[i] = "Metadata" THEN [doc EXCEPT !.meta = <<A>>] ELSE [doc EXCEPT !.body = Append(@, NewBlock(Kinds[i]))]
AddBlockInside ==
  /\ Has0 /\ Last1.t = "Collapsible"
  /\ \E i \in 1..Len(Kinds) : Kinds[i] # "Metadata" /\ SetLast(AddInside(Last1, NewBlock(Kinds[i])))
AddInline == Has0 /\ \E i \in 1..Len(Inls) : SetLast(AddInl(Last1, Inl(Inls[i])))
AddAPart  == Has0 /\ \E v \in 0..3 : SetLast(AddPart(Last1, v))
GrowText  == Has0 /\ \E i \in 1..Len(Pieces) : SetLast(Grow(Last1, Pieces[i]))
GrowTitle == Has0 /\ \E i \in 1..Len(Pieces) : SetLast(GrowHead(Last1, Pieces[i]))
GrowMeta  == doc.meta # <<>> /\ \E i \in 1..Len(Pieces) : doc' = [doc EXCEPT !.meta = <<@[1] \o Pieces[i]>>]
Step ==
  /\ n < MaxSteps /\ n' = n + 1
  /\ AddBlock \/ AddBlockInside \/ AddInline \/ AddAPart \/ GrowText \/ GrowTitle \/ GrowMeta
Spec == Init /\ [][Step]_vars

(* the same tree can be built in several ways *)
View1 == doc

Inv19 == GoodDoc(doc) => RoundTrips(doc)
(* printing what was read back changes nothing any more, good tree or not *)
Inv18 == LET d == Tree(Show(doc)) IN Tree(Show(d)) = d
Inv20 == JsonLossless(doc)
(* every text is printed, and nothing but the marks of the nodes and backslashes besides *)
Inv26 == D_C26(ModelBuilt(doc))
Emit ==
  CSVWrite("%1$s", <<ToJson([kind |-> "doc", doc |-> doc, out |-> Show(doc)])>>, IOEnv.BEHAVIOURS)
ASSUME TLCSet(1, 0)
Count == GoodDoc(doc') => TLCSet(1, TLCGet(1) + 1)
RECURSIVE SumAll(_, _)
SumAll(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumAll(q, i - 1)
Counted == LET all == TLCGet("all") IN
           JsonSerialize(IOEnv.COUNTS, <<<<"trees the round trip is about", SumAll(all[1], Len(all[1]))>>>>)
=============================================================================
