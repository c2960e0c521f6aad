------------------------------ MODULE JsonForm ------------------------------
(* Reading the serialised form back (C20): the reader is written from the      *)
(* documented shape alone, and has to be a left inverse of the writer in Props.*)
EXTENDS Props

Vals(s) == {s[i] : i \in 1..Len(s)}
Keys(j) == [i \in 1..Len(j.kv) |-> j.kv[i].k]
Named(j, keys) == j.j = "o" /\ Keys(j) = keys
F(j, k) == (CHOOSE m \in Vals(j.kv) : m.k = k).v
Opt(j) == IF j.j = "z" THEN <<>> ELSE <<j.s>>
Items(j, Op(_)) == [i \in 1..Len(j.a) |-> Op(j.a[i])]

RECURSIVE RInline(_)
RInline(j) ==
  LET t == F(j, "type").t  v == F(j, "value") IN
  CASE t = "Anchor" -> AnchorNode(F(v, "text").s, F(v, "url").s)
    [] t = "Bold"   -> BoldNode(Items(F(v, "body"), RInline))
    [] OTHER        -> LeafNode(t, v.s)
RInlines(j) == Items(j, RInline)
RECURSIVE RList(_)
RItem(j) == ItemNode(RInlines(F(j, "text")), IF F(j, "nested_list").j = "z" THEN <<>> ELSE <<RList(F(j, "nested_list"))>>)
RList(j) == ListNode(IF F(j, "list_type").t = "Ordered" THEN "OrderedList" ELSE "UnorderedList", F(j, "level").n,
                     Items(F(j, "body"), RItem))
RImage(v) == ImageNode(F(v, "alt").s, F(v, "src").s)
RPara(v)  == ParaNode(RInlines(F(v, "body")))
RECURSIVE RBlock(_)
RBlock(j) ==
  LET t == F(j, "type").t  v == F(j, "value") IN
  CASE t = "Paragraph"   -> RPara(v)
    [] t = "Heading"     -> HeadNode(F(v, "level").n, RInlines(F(v, "body")))
    [] t = "Image"       -> RImage(v)
    [] t = "Images"      -> ImagesNode(Items(F(v, "body"), RImage))
    [] t = "Code"        -> CodeNode(F(v, "lang").s, F(v, "code").s)
    [] t = "List"        -> RList(v)
    [] t = "Highlight"   -> HighNode(Opt(F(v, "title")), Opt(F(v, "icon")), Items(F(v, "body"), RPara))
    [] t = "Embed"       -> EmbedNode(F(v, "kind").s, F(v, "args").s)
    [] t = "Collapsible" -> CollNode(F(v, "title").s, Items(F(v, "body"), RBlock))
    [] t = "ThematicBreak" -> BreakNode
RDoc(j) == DocNode(Opt(F(j, "metadata")), Items(F(j, "body"), RBlock))

(* an event comes back with its borrowed range; the text is in the source *)
RContent(j) ==
  LET v == F(j, "value") IN
  IF F(j, "type").t = "Materialized" THEN [m |-> TRUE, s |-> 0, e |-> 0, w |-> v.s]
  ELSE [m |-> FALSE, s |-> F(v, "start").n, e |-> F(v, "end").n, w |-> <<>>]
REvent(j) ==
  LET kd == F(j, "kind")  x == RContent(F(j, "content")) IN
  CASE F(kd, "type").t = "Start" -> EvS(F(kd, "value").t, x)
    [] F(kd, "type").t = "End"   -> EvE(F(kd, "value").t, x)
    [] OTHER                     -> EvV(x)
NoText(e) == IF e.x.m THEN [e EXCEPT !.x = [m |-> TRUE, s |-> 0, e |-> 0, w |-> e.x.w]]
             ELSE [e EXCEPT !.x = [m |-> FALSE, s |-> e.x.s, e |-> e.x.e, w |-> <<>>]]

(* every object names every field of what it stands for, and nothing else *)
TaggedObj(j) == Named(j, <<"type", "value">>) /\ F(j, "type").j = "t"
RECURSIVE ShapeInline(_)
ShapeInline(j) ==
  /\ TaggedObj(j)
  /\ LET t == F(j, "type").t  v == F(j, "value") IN
     CASE t = "Anchor" -> Named(v, <<"text", "url">>)
       [] t = "Bold"   -> Named(v, <<"body">>) /\ \A x \in Vals(F(v, "body").a) : ShapeInline(x)
       [] OTHER        -> v.j = "s"
AllInline(j) == \A x \in Vals(j.a) : ShapeInline(x)
RECURSIVE ShapeList(_)
ShapeList(j) ==
  /\ Named(j, <<"body", "level", "list_type">>)
  /\ F(j, "list_type").t \in {"Ordered", "Unordered"}
  /\ \A x \in Vals(F(j, "body").a) :
       /\ Named(x, <<"nested_list", "text">>)
       /\ AllInline(F(x, "text"))
       /\ F(x, "nested_list").j = "z" \/ ShapeList(F(x, "nested_list"))
ShapePara(v) == Named(v, <<"body">>) /\ AllInline(F(v, "body"))
RECURSIVE ShapeBlock(_)
ShapeBlock(j) ==
  /\ TaggedObj(j)
  /\ LET t == F(j, "type").t  v == F(j, "value") IN
     CASE t = "Paragraph"   -> ShapePara(v)
       [] t = "Heading"     -> Named(v, <<"body", "level">>) /\ AllInline(F(v, "body"))
       [] t = "Image"       -> Named(v, <<"alt", "src">>)
       [] t = "Images"      -> Named(v, <<"body">>) /\ \A x \in Vals(F(v, "body").a) : Named(x, <<"alt", "src">>)
       [] t = "Code"        -> Named(v, <<"code", "lang">>)
       [] t = "List"        -> ShapeList(v)
       [] t = "Highlight"   -> Named(v, <<"body", "icon", "title">>) /\ \A x \in Vals(F(v, "body").a) : ShapePara(x)
       [] t = "Embed"       -> Named(v, <<"args", "kind">>)
       [] t = "Collapsible" -> Named(v, <<"body", "title">>) /\ \A x \in Vals(F(v, "body").a) : ShapeBlock(x)
       [] t = "ThematicBreak" -> Named(v, <<>>)
       [] OTHER             -> FALSE
ShapeDoc(j) == Named(j, <<"body", "metadata">>) /\ \A x \in Vals(F(j, "body").a) : ShapeBlock(x)
ShapeEvent(j) ==
  /\ Named(j, <<"content", "kind">>)
  /\ TaggedObj(F(j, "content"))
  /\ LET c == F(j, "content") IN
     IF F(c, "type").t = "Span" THEN Named(F(c, "value"), <<"end", "start">>) ELSE F(c, "value").j = "s"
  /\ LET kd == F(j, "kind") IN
     IF F(kd, "type").t = "Value" THEN Named(kd, <<"type">>) ELSE TaggedObj(kd) /\ F(kd, "value").j = "t"

JsonLossless(d) == LET j == JDoc(d) IN ShapeDoc(j) /\ RDoc(j) = d
JsonEvents(ev) ==
  LET j == JEvents(ev) IN
  \A i \in 1..Len(ev) : ShapeEvent(j.a[i]) /\ REvent(j.a[i]) = NoText(ev[i])
=============================================================================
