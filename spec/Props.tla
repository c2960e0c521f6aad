-------------------------------- MODULE Props --------------------------------
(* The properties, as predicates over observations.                            *)
(*                                                                             *)
(* An observation of a text is a record                                        *)
(*   src   the text                       tk    its tokens                     *)
(*   ev    its events                     ok    whether a tree could be built  *)
(*   doc   the tree                       out   the printed tree               *)
(*   doc2  the tree of the printed text   out2  that tree printed again        *)
(*   fin   every call returned            after the token iterator stays empty *)
(* Observations of the real library and of the specification have the same     *)
(* form, so the same predicate is an invariant of the specification (Yamd.tla) *)
(* and the verdict on the implementation (Trace.tla and the native oracle).    *)
(*                                                                             *)
(* D_x says what the property says in terms of the observation alone; X_x says *)
(* that the part of the observation the property is about is the one the       *)
(* specification has.  P_x is the conjunction.                                 *)
EXTENDS Tree

ModelObs(src) ==
  LET tk   == Lex(src)
      ev   == ParseTokens(src, tk)
      bd   == Build(ev)
      out  == Show(bd.tree)
      doc2 == Tree(out)
  IN  [src |-> src, tk |-> tk, ev |-> ev, ok |-> bd.ok, doc |-> bd.tree, out |-> out, doc2 |-> doc2,
       out2 |-> Show(doc2), fin |-> TRUE, after |-> TRUE]

--------------------------------------------------------------------------------
(* the text without its escaping backslashes: indices of the kept characters *)
RECURSIVE KeptAcc(_, _, _)
KeptAcc(src, i, acc) ==
  IF i > Len(src) THEN acc
  ELSE IF src[i] # BSL THEN KeptAcc(src, i + 1, Append(acc, i))
  ELSE IF i < Len(src) THEN KeptAcc(src, i + 2, Append(acc, i + 1))
  ELSE acc
Kept(src) == KeptAcc(src, 1, <<>>)
Plain(src, kept) == [j \in 1..Len(kept) |-> src[kept[j]]]

(* esc[i]: character i is escaped *)
RECURSIVE EscapedAcc(_, _, _)
EscapedAcc(src, i, acc) ==
  IF i > Len(src) THEN acc
  ELSE IF src[i] = BSL /\ i < Len(src) THEN EscapedAcc(src, i + 2, acc \o <<FALSE, TRUE>>)
  ELSE EscapedAcc(src, i + 1, Append(acc, FALSE))
Escaped(src) == EscapedAcc(src, 1, <<>>)
HasEscaped(src, esc, c) == \E i \in 1..Len(src) : esc[i] /\ src[i] = c

--------------------------------------------------------------------------------
(* C02: a walk over the events along the kept characters.  ok: every content   *)
(* is the next piece; at[i]: where (in kept characters) event i begins; k: how *)
(* many were covered                                                           *)
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(cx, i, k, acc) ==
  IF i > Len(cx.ev) THEN [acc EXCEPT !.ok = @ /\ k = Len(cx.pl), !.k = k]
  ELSE LET e == cx.ev[i]
           w == e.x.w
           n == Len(w)
           q == IF e.o = "E" /\ e.n = "Collapsible" /\ i > 1 /\ cx.ev[i - 1].n = "Document"
                THEN k + LineBreakLen(cx.pl, k + 1) ELSE k
           good == /\ q + n <= Len(cx.pl)
                   /\ \A j \in 1..n : cx.pl[q + j] = w[j]
                   /\ (n > 0 /\ ~e.x.m) =>
                        /\ e.x.s = cx.off[cx.kept[q + 1]]
                        /\ e.x.e = cx.off[cx.kept[q + n] + 1]
       IN  WalkFrom(cx, i + 1, q + n, [acc EXCEPT !.ok = @ /\ good, !.at = Append(@, q)])
Walk(o) ==
  LET kept == Kept(o.src) IN
  WalkFrom([ev |-> o.ev, kept |-> kept, pl |-> Plain(o.src, kept), off |-> Offsets(o.src)], 1, 0,
           [ok |-> TRUE, at |-> <<>>, k |-> 0])

D_C02(o) == Walk(o).ok
P_C02(o) == D_C02(o)

P_C01(o) == o.fin

--------------------------------------------------------------------------------
(* C03: the containment grammar.  G(ev, i) is the index after the node that    *)
(* starts at i, or 0                                                           *)
IsS(ev, i, n) == i >= 1 /\ i <= Len(ev) /\ ev[i].o = "S" /\ ev[i].n = n
IsE(ev, i, n) == i >= 1 /\ i <= Len(ev) /\ ev[i].o = "E" /\ ev[i].n = n
IsV(ev, i)    == i >= 1 /\ i <= Len(ev) /\ ev[i].o = "V"

RawKinds    == {"Title", "Destination", "Italic", "Strikethrough", "CodeSpan", "Emphasis", "Metadata", "ThematicBreak",
                "Modifier", "Icon"}
InlineKinds == {"Bold", "Italic", "Strikethrough", "CodeSpan", "Emphasis"}
ListKinds   == {"UnorderedList", "OrderedList"}
BlockKinds  == {"Paragraph", "Heading", "Image", "Images", "Code", "UnorderedList", "OrderedList", "Highlight",
                "ThematicBreak", "Embed", "Collapsible"}
(* what may be repeated inside a node, besides the fixed parts *)
Members(n) ==
  CASE n = "Document"  -> BlockKinds
    [] n = "Paragraph" -> {"Anchor"} \cup InlineKinds
    [] n = "Bold"      -> {"Italic", "Strikethrough"}
    [] n = "Heading"   -> {"Anchor"}
    [] n = "Images"    -> {"Image"}
    [] n = "Highlight" -> {"Paragraph"}
    [] n \in ListKinds -> {"ListItem"}
    [] OTHER           -> {}
TextIn(n) == n \in {"Document", "Paragraph", "Bold", "Heading", "Highlight"}

RECURSIVE G(_, _)
RECURSIVE GMany(_, _, _, _)
GIf(ev, i, n) == IF i > 0 /\ IsS(ev, i, n) THEN G(ev, i) ELSE 0
GOpt(ev, i, ns) == IF i > 0 /\ i <= Len(ev) /\ ev[i].o = "S" /\ ev[i].n \in ns THEN G(ev, i) ELSE i
GEnd(ev, i, n) == IF i > 0 /\ IsE(ev, i, n) THEN i + 1 ELSE 0
GText(ev, i) == IF i > 0 /\ IsV(ev, i) THEN i + 1 ELSE 0
(* members, then the end; at least m members *)
GMany(ev, i, n, m) ==
  IF i = 0 \/ i > Len(ev) THEN 0
  ELSE IF ev[i].o = "V" THEN IF TextIn(n) THEN GMany(ev, i + 1, n, m) ELSE 0
  ELSE IF ev[i].o = "S" THEN IF ev[i].n \in Members(n) THEN GMany(ev, G(ev, i), n, m - 1) ELSE 0
  ELSE IF m <= 0 THEN GEnd(ev, i, n) ELSE 0
G(ev, i) ==
  LET n == ev[i].n
      b == i + 1 IN
  CASE n \in RawKinds               -> GEnd(ev, GText(ev, b), n)
    [] n \in {"Anchor"}             -> GEnd(ev, GIf(ev, GIf(ev, b, "Title"), "Destination"), n)
    [] n = "Image"                  -> GEnd(ev, GIf(ev, GIf(ev, b, "Title"), "Destination"), n)
    [] n = "ListItem"               -> GEnd(ev, GOpt(ev, GIf(ev, b, "Paragraph"), ListKinds), n)
    [] n = "Code"                   -> GEnd(ev, GText(ev, GOpt(ev, b, {"Modifier"})), n)
    [] n = "Embed"                  -> GEnd(ev, GText(ev, GText(ev, GText(ev, b))), n)
    [] n = "Collapsible"            -> GEnd(ev, GIf(ev, GOpt(ev, b, {"Modifier"}), "Document"), n)
    [] n = "Highlight"              -> GMany(ev, GOpt(ev, GOpt(ev, b, {"Modifier"}), {"Icon"}), n, 0)
    [] n = "Images"                 -> GMany(ev, b, n, 2)
    [] n \in ListKinds              -> GMany(ev, b, n, 1)
    [] n \in {"Document", "Paragraph", "Bold", "Heading"} -> GMany(ev, b, n, 0)
    [] OTHER                        -> 0
Grammatical(ev) == GIf(ev, GOpt(ev, 1, {"Metadata"}), "Document") = Len(ev) + 1

D_C03(o) == Grammatical(o.ev) /\ o.ok
P_C03(o) == D_C03(o)

--------------------------------------------------------------------------------
(* C04: what a grammatical stream denotes, by structural recursion *)
RECURSIVE CloseOf(_, _, _)
CloseOf(ev, j, d) ==
  IF ev[j].o = "S" THEN CloseOf(ev, j + 1, d + 1)
  ELSE IF ev[j].o = "E" THEN IF d = 1 THEN j ELSE CloseOf(ev, j + 1, d - 1)
  ELSE CloseOf(ev, j + 1, d)
RECURSIVE KidsFrom(_, _, _)
KidsFrom(ev, j, acc) ==
  IF ev[j].o = "E" THEN acc
  ELSE KidsFrom(ev, IF ev[j].o = "V" THEN j + 1 ELSE CloseOf(ev, j, 0) + 1, Append(acc, j))
Kids(ev, i) == KidsFrom(ev, i + 1, <<>>)
RECURSIVE SelectKids(_, _, _, _, _)
SelectKids(ev, ks, j, ns, acc) ==
  IF j > Len(ks) THEN acc
  ELSE SelectKids(ev, ks, j + 1, ns, IF ev[ks[j]].o = "S" /\ ev[ks[j]].n \in ns THEN Append(acc, ks[j]) ELSE acc)
KidsOf(ev, i, ns) == SelectKids(ev, Kids(ev, i), 1, ns, <<>>)
RawText(ev, i) == LET k == Kids(ev, i) IN Concat([j \in 1..Len(k) |-> ev[k[j]].x.w])
PartText(ev, i, n) == LET k == KidsOf(ev, i, {n}) IN IF k = <<>> THEN <<>> ELSE RawText(ev, k[1])
PartOpt(ev, i, n) == LET k == KidsOf(ev, i, {n}) IN IF k = <<>> THEN <<>> ELSE <<RawText(ev, k[1])>>

RECURSIVE Denote(_, _, _)
DenoteAll(ev, ks, lv) == [j \in 1..Len(ks) |-> Denote(ev, ks[j], lv)]
DenoteBody(ev, i) == DenoteAll(ev, Kids(ev, i), 0)
DenoteItem(ev, i, lv) ==
  LET p == KidsOf(ev, i, {"Paragraph"})
      l == KidsOf(ev, i, ListKinds) IN
  ItemNode(TrimLastText(DenoteBody(ev, p[1])), DenoteAll(ev, l, lv + 1))
Denote(ev, i, lv) ==
  LET n == ev[i].n IN
  CASE ev[i].o = "V"         -> Txt(ev[i].x.w)
    [] n = "Paragraph"       -> ParaNode(DenoteBody(ev, i))
    [] n = "Bold"            -> BoldNode(DenoteBody(ev, i))
    [] n = "Heading"         -> HeadNode(CountHash(ev[i].x.w, 1), DenoteBody(ev, i))
    [] n \in InlineKinds     -> LeafNode(n, RawText(ev, i))
    [] n = "Anchor"          -> AnchorNode(PartText(ev, i, "Title"), PartText(ev, i, "Destination"))
    [] n = "Image"           -> ImageNode(PartText(ev, i, "Title"), PartText(ev, i, "Destination"))
    [] n = "Images"          -> ImagesNode(DenoteBody(ev, i))
    [] n = "Code"            -> CodeNode(PartText(ev, i, "Modifier"), TrimEnd(ev[CloseOf(ev, i, 0) - 1].x.w))
    [] n = "Embed"           -> EmbedNode(ev[i + 1].x.w, ev[i + 3].x.w)
    [] n = "ThematicBreak"   -> BreakNode
    [] n \in ListKinds       -> LET k == Kids(ev, i) IN
                                ListNode(n, lv, [j \in 1..Len(k) |-> DenoteItem(ev, k[j], lv)])
    [] n = "Highlight"       -> LET k == KidsOf(ev, i, {"Paragraph"}) IN
                                HighNode(PartOpt(ev, i, "Modifier"), PartOpt(ev, i, "Icon"),
                                         [j \in 1..Len(k) |-> ParaNode(TrimLastText(DenoteBody(ev, k[j])))])
    [] OTHER                 -> LET d == KidsOf(ev, i, {"Document"}) IN
                                CollNode(PartText(ev, i, "Modifier"), DenoteAll(ev, KidsOf(ev, d[1], BlockKinds), 0))
DenoteDoc(ev) ==
  LET m == IsS(ev, 1, "Metadata")
      d == IF m THEN CloseOf(ev, 1, 0) + 1 ELSE 1 IN
  DocNode(IF m THEN <<Trim(RawText(ev, 1))>> ELSE <<>>, DenoteAll(ev, KidsOf(ev, d, BlockKinds), 0))

D_C04(o) == Grammatical(o.ev) => o.ok /\ o.doc = DenoteDoc(o.ev)
P_C04(o) == D_C04(o)

--------------------------------------------------------------------------------
(* C05: observation of a hand-built stream: ev, ok, doc, and of the infallible *)
(* builder: iok (did not panic), idoc                                          *)
RECURSIVE BalancedFrom(_, _, _)
BalancedFrom(ev, i, open) ==
  IF i > Len(ev) THEN open = <<>>
  ELSE IF ev[i].o = "S" THEN BalancedFrom(ev, i + 1, Append(open, ev[i].n))
  ELSE IF ev[i].o = "E"
       THEN Len(open) > 0 /\ open[Len(open)] = ev[i].n /\ BalancedFrom(ev, i + 1, SubSeq(open, 1, Len(open) - 1))
  ELSE BalancedFrom(ev, i + 1, open)
Balanced(ev) == BalancedFrom(ev, 1, <<>>)

D_C05(o) == /\ o.ok = Balanced(o.ev)
            /\ o.iok = o.ok
            /\ o.ok => o.idoc = o.doc
X_C05(o) == o.ok => o.doc = Build(o.ev).tree
P_C05(o) == D_C05(o) /\ X_C05(o)
(* C04 on hand-built streams *)
P_C04b(o) == D_C04(o)

--------------------------------------------------------------------------------
(* C06, C07, C08: tokens *)
RECURSIVE RangesFrom(_, _, _)
RangesFrom(tk, i, acc) ==
  IF i > Len(tk) THEN acc
  ELSE RangesFrom(tk, i + 1, acc \o [j \in 1..(tk[i].z - tk[i].a) |-> tk[i].a + j - 1])

ValidRange(src, t) == 1 <= t.a /\ t.a < t.z /\ t.z <= Len(src) + 1

D_C06(o) ==
  LET off == Offsets(o.src) IN
  /\ \A i \in 1..Len(o.tk) :
        LET t == o.tk[i] IN ValidRange(o.src, t) /\ t.s = off[t.a] /\ t.e = off[t.z]
  /\ RangesFrom(o.tk, 1, <<>>) = Kept(o.src)
  /\ o.after
P_C06(o) == D_C06(o)

RunChar(k) ==
  CASE k = "Tilde" -> TILDE [] k = "Star" -> STAR [] k = "RightCurlyBrace" -> RBRACE
    [] k = "LeftCurlyBrace" -> LBRACE [] k = "Minus" -> DASH [] k = "Hash" -> HASH
    [] k = "GreaterThan" -> GT [] k = "Bang" -> BANG [] k = "Backtick" -> TICK
    [] k = "Plus" -> PLUS [] k = "Space" -> SP [] OTHER -> 0
SingleChar(k) ==
  CASE k = "LeftSquareBracket" -> LSQ [] k = "RightSquareBracket" -> RSQ
    [] k = "LeftParenthesis" -> LPAR [] k = "RightParenthesis" -> RPAR
    [] k = "Underscore" -> USCORE [] k = "Pipe" -> PIPE [] OTHER -> 0
RunMarks    == {TILDE, STAR, RBRACE, LBRACE, DASH, HASH, GT, BANG, TICK, PLUS}
SingleMarks == {LSQ, RSQ, LPAR, RPAR, USCORE, PIPE}
(* an unescaped character at i that cannot belong to a literal *)
MarkAt(src, i) ==
  \/ src[i] \in RunMarks \/ src[i] \in SingleMarks \/ src[i] = BSL
  \/ LineBreakLen(src, i) > 0 \/ IsPair(src, i)

KindOk(o, esc, i) ==
  LET t == o.tk[i]
      n == t.z - t.a
      next == i + 1 <= Len(o.tk) /\ o.tk[i + 1].a = t.z   \* the next token follows directly
  IN
  IF t.k = "Literal"
  THEN /\ \A j \in t.a..(t.z - 1) : (j = t.a /\ esc[j]) \/ (~esc[j] /\ ~MarkAt(o.src, j))
       /\ ~esc[t.a] => o.src[t.a] # SP
       /\ next => ~(o.tk[i + 1].k = "Literal")
  ELSE /\ ~esc[t.a]
       /\ CASE RunChar(t.k) # 0    -> /\ \A j \in t.a..(t.z - 1) : o.src[j] = RunChar(t.k)
                                      \* a brace next to a percent sign belongs to a collapsible mark
                                      /\ ~IsPair(o.src, t.a)
                                      /\ At(o.src, t.z) # RunChar(t.k)
            [] SingleChar(t.k) # 0 -> n = 1 /\ o.src[t.a] = SingleChar(t.k)
            [] t.k = "CollapsibleStart" -> n = 2 /\ o.src[t.a] = LBRACE /\ o.src[t.a + 1] = PCT
            [] t.k = "CollapsibleEnd"   -> n = 2 /\ o.src[t.a] = PCT /\ o.src[t.a + 1] = RBRACE
            [] t.k = "Eol"  -> /\ n = LineBreakLen(o.src, t.a)
                               /\ next => o.tk[i + 1].k \notin {"Eol", "Terminator"}
            [] t.k = "Terminator" -> LET w == LineBreakLen(o.src, t.a) IN
                                     w > 0 /\ n > w /\ n = w + LineBreakLen(o.src, t.a + w)
            [] OTHER -> FALSE
D_C07(o) == LET esc == Escaped(o.src) IN
            \A i \in 1..Len(o.tk) : ValidRange(o.src, o.tk[i]) /\ KindOk(o, esc, i)
(* which characters are covered is C06; here only that nothing covered has another kind *)
X_C07(o) == [i \in 1..Len(o.tk) |-> <<o.tk[i].k, o.tk[i].a, o.tk[i].z>>]
          = LET m == Lex(o.src) IN [i \in 1..Len(m) |-> <<m[i].k, m[i].a, m[i].z>>]
P_C07(o) == D_C07(o) /\ X_C07(o)

(* position of every character: rows and columns *)
RECURSIVE PosFrom(_, _, _, _, _)
PosFrom(src, i, row, col, acc) ==
  IF i > Len(src) THEN acc
  ELSE IF src[i] = BSL
       THEN IF i < Len(src) THEN PosFrom(src, i + 2, row, col + 1, acc \o <<<<row, col>>, <<row, col>>>>)
            ELSE Append(acc, <<row, col>>)
  ELSE IF LineBreakLen(src, i) = 2 THEN PosFrom(src, i + 2, row + 1, 0, acc \o <<<<row, col>>, <<row, col>>>>)
  ELSE IF LineBreakLen(src, i) = 1 THEN PosFrom(src, i + 1, row + 1, 0, Append(acc, <<row, col>>))
  ELSE PosFrom(src, i + 1, row, col + 1, Append(acc, <<row, col>>))
D_C08(o) ==
  LET pos == PosFrom(o.src, 1, 0, 0, <<>>) IN
  \A i \in 1..Len(o.tk) :
     LET t == o.tk[i] IN
     ValidRange(o.src, t) => /\ t.b = t.s
                             /\ <<t.r, t.c>> = pos[t.a]
P_C08(o) == D_C08(o)

--------------------------------------------------------------------------------
(* C09: aev and adoc are the observations of the same text with an ordinary    *)
(* character in place of every escaped one                                     *)
RECURSIVE AltFrom(_, _, _)
AltFrom(src, i, acc) ==
  IF i > Len(src) THEN acc
  ELSE IF src[i] = BSL /\ i < Len(src) THEN AltFrom(src, i + 2, acc \o <<BSL, 120>>)
  ELSE AltFrom(src, i + 1, Append(acc, src[i]))
AltSrc(src) == AltFrom(src, 1, <<>>)
FullyEscaped(t) == Concat([i \in 1..Len(t) |-> <<BSL, t[i]>>])

EvSkel(ev) == [i \in 1..Len(ev) |-> <<ev[i].o, ev[i].n, ev[i].x.m, Len(ev[i].x.w)>>]
EvText(ev) == Concat([i \in 1..Len(ev) |-> ev[i].x.w])

(* the shape of a tree: the tree with every text replaced by its length *)
RECURSIVE InShape(_)
RECURSIVE BlShape(_)
InShape(n) ==
  CASE n.t = "Bold"   -> <<n.t, [i \in 1..Len(n.body) |-> InShape(n.body[i])]>>
    [] n.t = "Anchor" -> <<n.t, Len(n.text), Len(n.url)>>
    [] OTHER          -> <<n.t, Len(n.s)>>
InsShape(b) == [i \in 1..Len(b) |-> InShape(b[i])]
RECURSIVE ListShape(_)
ListShape(l) ==
  <<l.kind, l.level, [i \in 1..Len(l.body) |->
      <<InsShape(l.body[i].text), IF l.body[i].nested = <<>> THEN <<>> ELSE ListShape(l.body[i].nested[1])>>]>>
OptLen(x) == IF x = <<>> THEN <<>> ELSE <<Len(x[1])>>
BlShape(n) ==
  CASE n.t = "Paragraph"     -> <<n.t, InsShape(n.body)>>
    [] n.t = "Heading"       -> <<n.t, n.level, InsShape(n.body)>>
    [] n.t = "Image"         -> <<n.t, Len(n.alt), Len(n.src)>>
    [] n.t = "Images"        -> <<n.t, [i \in 1..Len(n.body) |-> BlShape(n.body[i])]>>
    [] n.t = "Code"          -> <<n.t, Len(n.lang), Len(n.code)>>
    [] n.t = "List"          -> <<n.t, ListShape(n)>>
    [] n.t = "Highlight"     -> <<n.t, OptLen(n.title), OptLen(n.icon), [i \in 1..Len(n.body) |-> BlShape(n.body[i])]>>
    [] n.t = "Embed"         -> <<n.t, Len(n.kind), Len(n.args)>>
    [] n.t = "Collapsible"   -> <<n.t, Len(n.title), [i \in 1..Len(n.body) |-> BlShape(n.body[i])]>>
    [] OTHER                 -> <<n.t>>
Shape(d) == <<OptLen(d.meta), [i \in 1..Len(d.body) |-> BlShape(d.body[i])]>>

D_C09(o) ==
  LET esc  == Escaped(o.src)
      lits == {o.tk[i].a : i \in {i \in 1..Len(o.tk) : o.tk[i].k = "Literal"}} IN
  /\ EvSkel(o.ev) = EvSkel(o.aev)
  /\ (~HasEscaped(o.src, esc, LF) /\ ~HasEscaped(o.src, esc, CR)) => Shape(o.doc) = Shape(o.adoc)
  /\ \A i \in 1..Len(o.tk) : ValidRange(o.src, o.tk[i]) => o.tk[i].x = esc[o.tk[i].a]
  /\ \A j \in 1..Len(o.src) : esc[j] => j \in lits
(* the text with every character escaped: one plain paragraph *)
D_C09f(o) == o.plain # <<>> => o.doc = DocNode(<<>>, <<ParaNode(<<Txt(o.plain)>>)>>)
P_C09(o) == D_C09(o)
P_C09f(o) == o.src = FullyEscaped(o.plain) => D_C09f(o)

--------------------------------------------------------------------------------
(* C10 .. C17: the rows of the event stream a property is about, each with the *)
(* place (in kept characters) it is at                                         *)
RECURSIVE RowsFrom(_, _, _, _, _)
RowsFrom(ev, at, i, open, acc) ==
  IF i > Len(ev) THEN acc
  ELSE LET e == ev[i]
           d == Len(open)
           op == IF e.o = "E" /\ d > 0 THEN SubSeq(open, 1, d - 1) ELSE open
           c == Len(op)
           r == [o |-> e.o, n |-> e.n, a |-> at[i], w |-> e.x.w,
                 p |-> IF c > 0 THEN op[c] ELSE "", g |-> IF c > 1 THEN op[c - 1] ELSE ""]
       IN  RowsFrom(ev, at, i + 1, IF e.o = "S" THEN Append(op, e.n) ELSE op, Append(acc, r))
Rows(o) == RowsFrom(o.ev, Walk(o).at, 1, <<>>, <<>>)

Relevant(c, r) ==
  CASE c = "C10" -> r.n \in InlineKinds \/ (r.o = "V" /\ r.p \in InlineKinds)
    [] c = "C11" -> r.n \in {"Anchor", "Image", "Images", "Title", "Destination"}
                    \/ (r.o = "V" /\ r.p \in {"Title", "Destination"})
    [] c = "C12" -> r.n \in {"Heading", "ThematicBreak", "Embed"} \/ (r.o = "V" /\ r.p \in {"ThematicBreak", "Embed"})
    [] c = "C13" -> r.n = "Code" \/ (r.o = "V" /\ r.p = "Code") \/ (r.n = "Modifier" /\ r.p = "Code")
                    \/ (r.o = "V" /\ r.p = "Modifier" /\ r.g = "Code")
    [] c = "C14" -> r.n \in ListKinds \/ r.n = "ListItem" \/ (r.n = "Paragraph" /\ r.p = "ListItem")
    [] c = "C15" -> r.n \in {"Highlight", "Icon"} \/ (r.n = "Modifier" /\ r.p = "Highlight")
                    \/ (r.o = "V" /\ (r.p \in {"Highlight", "Icon"} \/ (r.p = "Modifier" /\ r.g = "Highlight")))
                    \/ (r.n = "Paragraph" /\ r.p = "Highlight")
    [] c = "C16" -> r.n \in {"Collapsible", "Document"} \/ (r.n = "Modifier" /\ r.p = "Collapsible")
                    \/ (r.o = "V" /\ r.p = "Modifier" /\ r.g = "Collapsible")
    [] c = "C16all" -> r.n \in {"Collapsible", "Document"} \/ r.p = "Document"
                    \/ (r.n = "Modifier" /\ r.p = "Collapsible")
                    \/ (r.o = "V" /\ r.p = "Modifier" /\ r.g = "Collapsible")
    [] c = "C17" -> r.n \in {"Metadata"} \/ (r.o = "V" /\ r.p = "Metadata") \/ (r.n = "Document" /\ r.p = "")
    [] OTHER -> TRUE
RECURSIVE SelectRows(_, _, _, _)
SelectRows(rows, i, c, acc) ==
  IF i > Len(rows) THEN acc
  ELSE SelectRows(rows, i + 1, c, IF Relevant(c, rows[i]) THEN Append(acc, rows[i]) ELSE acc)
View(o, c) == SelectRows(Rows(o), 1, c, <<>>)

(* the nodes of the tree a property is about, in document order *)
RECURSIVE InNodes(_, _)
InNodes(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE <<b[i]>> \o (IF b[i].t = "Bold" THEN InNodes(b[i].body, 1) ELSE <<>>) \o InNodes(b, i + 1)
RECURSIVE ListNodes(_)
ListNodes(l) ==
  <<[t |-> "ListHead", kind |-> l.kind, level |-> l.level, n |-> Len(l.body)]>>
  \o Concat([i \in 1..Len(l.body) |->
       <<[t |-> "Item", n |-> Len(l.body[i].nested)]>> \o InNodes(l.body[i].text, 1)
       \o (IF l.body[i].nested = <<>> THEN <<>> ELSE ListNodes(l.body[i].nested[1]))])
RECURSIVE BlNodes(_)
BlNodes(n) ==
  CASE n.t = "Paragraph"   -> InNodes(n.body, 1)
    [] n.t = "Heading"     -> <<[t |-> "Heading", level |-> n.level]>> \o InNodes(n.body, 1)
    [] n.t = "List"        -> ListNodes(n)
    [] n.t = "Highlight"   -> <<[t |-> "Highlight", title |-> n.title, icon |-> n.icon, n |-> Len(n.body)]>>
                              \o Concat([i \in 1..Len(n.body) |-> InNodes(n.body[i].body, 1)])
    [] n.t = "Collapsible" -> <<[t |-> "Collapsible", title |-> n.title,
                                 kinds |-> [i \in 1..Len(n.body) |-> n.body[i].t]]>>
                              \o Concat([i \in 1..Len(n.body) |-> BlNodes(n.body[i])])
    [] OTHER               -> <<n>>
DocNodes(d) == Concat([i \in 1..Len(d.body) |-> BlNodes(d.body[i])])

NodeKinds(c) ==
  CASE c = "C10" -> InlineKinds
    [] c = "C11" -> {"Anchor", "Image", "Images"}
    [] c = "C12" -> {"Heading", "ThematicBreak", "Embed"}
    [] c = "C13" -> {"Code"}
    [] c = "C14" -> {"ListHead", "Item"}
    [] c = "C15" -> {"Highlight"}
    [] c = "C16" -> {"Collapsible"}
    [] OTHER -> {}
RECURSIVE SelectNodes(_, _, _, _)
SelectNodes(ns, i, ks, acc) ==
  IF i > Len(ns) THEN acc
  ELSE SelectNodes(ns, i + 1, ks, IF ns[i].t \in ks THEN Append(acc, ns[i]) ELSE acc)
NodeView(d, c) == SelectNodes(DocNodes(d), 1, NodeKinds(c), <<>>)

(* mv is the model's observation of the same text: [src, ev, doc] *)
Model(src) == LET ev == Parse(src) IN [src |-> src, ev |-> ev, doc |-> Build(ev).tree]
Same(o, c) ==
  LET m == Model(o.src) IN
  /\ View(o, c) = View(m, c)
  /\ NodeView(o.doc, c) = NodeView(m.doc, c)

--------------------------------------------------------------------------------
(* C10, said about tokens.  po[i] is the place of token i in kept characters   *)
RECURSIVE PlacesFrom(_, _, _, _)
PlacesFrom(tk, i, p, acc) ==
  IF i > Len(tk) THEN acc ELSE PlacesFrom(tk, i + 1, p + (tk[i].z - tk[i].a), Append(acc, p))
Places(tk) == PlacesFrom(tk, 1, 0, <<>>)

InlineMark(t) ==
  LET n == t.e - t.s IN
  IF t.k = "Tilde" /\ n = 2 THEN "Strikethrough"
  ELSE IF t.k = "Underscore" THEN "Italic"
  ELSE IF t.k = "Star" /\ n = 2 THEN "Bold"
  ELSE IF t.k = "Star" /\ n = 1 THEN "Emphasis"
  ELSE IF t.k = "Backtick" /\ n = 1 THEN "CodeSpan" ELSE ""
MarkLen(n) == IF n \in {"Strikethrough", "Bold"} THEN 2 ELSE 1

(* the stretches of text directly inside nodes of kind p: <<from, to>>, with    *)
(* the end of the enclosing paragraph                                          *)
ParaEnds(rows) == {i \in 1..Len(rows) : rows[i].o = "E" /\ rows[i].n = "Paragraph"}
NextParaEnd(rows, i) == CHOOSE j \in ParaEnds(rows) : j >= i /\ \A k \in ParaEnds(rows) : k >= i => j <= k
InPara(r) == r.p = "Paragraph" \/ r.g = "Paragraph"

D_C10(o) ==
  LET rows == Rows(o)
      po   == Places(o.tk)
      N    == Len(o.tk)
      \* tokens of inline kind n that begin in [a, z)
      Marks(n, a, z) == {i \in 1..N : po[i] >= a /\ po[i] < z /\ InlineMark(o.tk[i]) = n}
      Endpos(i) == rows[NextParaEnd(rows, i)].a
  IN
  \A i \in 1..Len(rows) :
    LET r == rows[i] IN
    CASE r.o = "S" /\ r.n \in {"Strikethrough", "Italic", "CodeSpan", "Emphasis"} ->
           \* start mark, body up to the nearest such mark, end mark
           /\ r.p = "Paragraph" \/ (r.p = "Bold" /\ r.n \in {"Strikethrough", "Italic"})
           /\ Marks(r.n, r.a, r.a + 1) # {}
           /\ i + 2 <= Len(rows)
           /\ LET z == rows[i + 2].a IN
              /\ rows[i + 2].o = "E" /\ rows[i + 2].n = r.n
              /\ Marks(r.n, z, z + 1) # {}
              /\ Marks(r.n, r.a + MarkLen(r.n), z) = {}
              /\ ~\E t \in 1..N : po[t] >= r.a /\ po[t] < z /\ o.tk[t].k = "Terminator"
      [] r.o = "S" /\ r.n = "Bold" -> r.p = "Paragraph" /\ Marks("Bold", r.a, r.a + 1) # {}
      [] r.o = "E" /\ r.n = "Bold" -> Marks("Bold", r.a, r.a + 1) # {}
      [] r.o = "V" /\ r.p = "Paragraph" ->
           \* a mark left in plain text has no later one in its block
           \A n \in {"Strikethrough", "Italic", "CodeSpan", "Emphasis"} :
              \A t \in Marks(n, r.a, r.a + Len(r.w)) : Marks(n, po[t] + 1, Endpos(i)) = {}
      [] r.o = "V" /\ r.p = "Bold" ->
           /\ Marks("Bold", r.a, r.a + Len(r.w)) = {}
           /\ \A n \in {"Strikethrough", "Italic"} :
                \A t \in Marks(n, r.a, r.a + Len(r.w)) : Marks(n, po[t] + 1, Endpos(i)) = {}
      [] OTHER -> TRUE
X_C10(o) == Same(o, "C10")
P_C10(o) == X_C10(o) /\ D_C10(o)

--------------------------------------------------------------------------------
(* C11: in a label no closing bracket; the target ends where it says *)
RECURSIVE DepthAt(_, _, _, _)
DepthAt(tk, i, z, d) ==    \* depth after tokens i .. z-1, or 0 as soon as it gets to 0
  IF i >= z \/ d = 0 THEN d
  ELSE DepthAt(tk, i + 1, z, IF tk[i].k = "LeftParenthesis" THEN d + 1
                             ELSE IF tk[i].k = "RightParenthesis" THEN d - 1 ELSE d)
TokenAt(po, a) == CHOOSE i \in 1..Len(po) : po[i] = a
D_C11(o) ==
  LET rows == Rows(o)
      po   == Places(o.tk)
      N    == Len(o.tk)
      K(i, k) == i >= 1 /\ i <= N /\ o.tk[i].k = k
  IN
  \A i \in 1..Len(rows) :
    LET r == rows[i] IN
    CASE r.o = "S" /\ r.n = "Title" ->
           \* [ label ] directly followed by the target
           /\ i + 3 <= Len(rows)
           /\ \E t \in 1..N : po[t] = r.a /\ K(t, "LeftSquareBracket")
           /\ \E t \in 1..N : po[t] = rows[i + 2].a /\ K(t, "RightSquareBracket") /\ K(t + 1, "LeftParenthesis")
           /\ ~\E t \in 1..N : po[t] > r.a /\ po[t] < rows[i + 2].a /\ K(t, "RightSquareBracket")
           /\ rows[i + 3].o = "S" /\ rows[i + 3].n = "Destination"
      [] r.o = "S" /\ r.n = "Destination" ->
           /\ i + 2 <= Len(rows)
           /\ \E s \in 1..N : \E t \in 1..N :
                /\ po[s] = r.a /\ K(s, "LeftParenthesis") /\ po[t] = rows[i + 2].a /\ K(t, "RightParenthesis")
                /\ DepthAt(o.tk, s + 1, t, 1) > 0
      [] r.o = "E" /\ r.n = "Image" -> r.p \in {"Document", "Images"}
      [] OTHER -> TRUE
X_C11(o) == Same(o, "C11")
P_C11(o) == X_C11(o) /\ D_C11(o)

--------------------------------------------------------------------------------
(* C12 *)
LineStart(o, po, a) == \E t \in 1..Len(po) : po[t] = a /\ o.tk[t].c = 0
HashMark(w) == Len(w) >= 2 /\ Len(w) <= 7 /\ w[Len(w)] = SP /\ \A j \in 1..(Len(w) - 1) : w[j] = HASH
D_C12(o) ==
  LET rows == Rows(o)
      po   == Places(o.tk) IN
  \A i \in 1..Len(rows) :
    LET r == rows[i] IN
    r.o = "S" =>
    CASE r.n = "Heading" ->
           /\ r.p = "Document" /\ HashMark(r.w) /\ LineStart(o, po, r.a)
           /\ \E t \in 1..Len(po) : po[t] = r.a /\ o.tk[t].e - o.tk[t].s = Len(r.w) - 1
      [] r.n = "ThematicBreak" ->
           /\ r.p = "Document" /\ LineStart(o, po, r.a) /\ rows[i + 1].w = Repeat(DASH, 5)
           /\ \E t \in 1..Len(po) : po[t] = r.a /\ o.tk[t].k = "Minus" /\ o.tk[t].e - o.tk[t].s = 5
      [] r.n = "Embed" ->
           /\ r.p = "Document" /\ LineStart(o, po, r.a) /\ r.w = <<LBRACE, LBRACE>>
           /\ rows[i + 2].w = <<PIPE>>
           \* no bar in the kind, no closing braces in the arguments, no blank line
           /\ ~\E t \in 1..Len(po) : /\ po[t] >= r.a /\ po[t] < rows[i + 4].a
                                     /\ \/ o.tk[t].k = "Pipe" /\ po[t] < rows[i + 2].a
                                        \/ o.tk[t].k = "RightCurlyBrace" /\ o.tk[t].e - o.tk[t].s = 2 /\ po[t] > rows[i + 2].a
                                        \/ o.tk[t].k = "Terminator"
           /\ rows[i + 4].w \in {<<RBRACE, RBRACE>>, <<RBRACE, RBRACE, LF>>, <<RBRACE, RBRACE, CR, LF>>}
      [] r.n = "Paragraph" /\ r.p = "Document" ->
           \* no paragraph looks like one of them
           \A t \in 1..Len(po) : (po[t] = r.a /\ o.tk[t].c = 0) =>
             /\ ~(o.tk[t].k = "Minus" /\ o.tk[t].e - o.tk[t].s = 5)
             /\ ~(/\ o.tk[t].k = "Hash" /\ o.tk[t].e - o.tk[t].s <= 6
                  /\ t + 1 <= Len(po) /\ o.tk[t + 1].k = "Space" /\ o.tk[t + 1].e - o.tk[t + 1].s = 1)
      [] OTHER -> TRUE
X_C12(o) == Same(o, "C12")
P_C12(o) == X_C12(o) /\ D_C12(o)

(* C13 *)
Fence(o, t) == o.tk[t].k = "Backtick" /\ o.tk[t].e - o.tk[t].s = 3 /\ o.tk[t].c = 0
D_C13(o) ==
  LET rows == Rows(o)
      po   == Places(o.tk) IN
  \A i \in 1..Len(rows) :
    LET r == rows[i] IN
    CASE r.o = "S" /\ r.n = "Code" ->
           /\ r.p = "Document"
           /\ \E t \in 1..Len(po) : po[t] = r.a /\ Fence(o, t)
      [] r.o = "V" /\ r.p = "Code" ->
           \* the body holds no fence and the next token is one
           /\ ~\E t \in 1..Len(po) : po[t] >= r.a /\ po[t] < r.a + Len(r.w) /\ Fence(o, t)
           /\ \E t \in 1..Len(po) : po[t] = r.a + Len(r.w) /\ Fence(o, t)
           /\ rows[i + 1].w \in {<<TICK, TICK, TICK>>, <<TICK, TICK, TICK, LF>>, <<TICK, TICK, TICK, CR, LF>>}
      [] r.o = "V" /\ r.p = "Modifier" /\ r.g = "Code" ->
           ~\E t \in 1..Len(po) : po[t] >= r.a /\ po[t] < r.a + Len(r.w) /\ o.tk[t].k \in {"Eol", "Terminator"}
      [] OTHER -> TRUE
X_C13(o) == Same(o, "C13")
P_C13(o) == X_C13(o) /\ D_C13(o)

(* C14 *)
ItemMark(w, lv, k) == w = Repeat(SP, lv) \o <<IF k = "OrderedList" THEN PLUS ELSE DASH, SP>>
RECURSIVE C14From(_, _, _, _)
C14From(rows, i, lv, acc) ==   \* lv: number of lists open
  IF i > Len(rows) THEN acc
  ELSE LET r == rows[i] IN
       IF r.n \in ListKinds
       THEN C14From(rows, i + 1, IF r.o = "S" THEN lv + 1 ELSE lv - 1,
                    acc /\ (r.o = "S" => r.p = IF lv = 0 THEN "Document" ELSE "ListItem"))
       ELSE IF r.n = "ListItem" /\ r.o = "S"
       THEN C14From(rows, i + 1, lv, acc /\ r.p \in ListKinds /\ ItemMark(r.w, lv - 1, r.p))
       ELSE C14From(rows, i + 1, lv, acc)
D_C14(o) ==
  LET rows == Rows(o)
      po   == Places(o.tk) IN
  /\ C14From(rows, 1, 0, TRUE)
  /\ \A i \in 1..Len(rows) : (rows[i].n = "ListItem" /\ rows[i].o = "S") => LineStart(o, po, rows[i].a)
X_C14(o) == Same(o, "C14")
P_C14(o) == X_C14(o) /\ D_C14(o)

(* C15 *)
D_C15(o) ==
  LET rows == Rows(o)
      po   == Places(o.tk)
      Bangs(a, n) == \E t \in 1..Len(po) : po[t] = a /\ o.tk[t].k = "Bang" /\ o.tk[t].e - o.tk[t].s = n /\ o.tk[t].c = 0
      OneLine(r) == ~\E t \in 1..Len(po) : po[t] >= r.a /\ po[t] < r.a + Len(r.w) /\ o.tk[t].k \in {"Eol", "Terminator"}
  IN
  \A i \in 1..Len(rows) :
    LET r == rows[i] IN
    CASE r.n = "Highlight" -> r.p = "Document" /\ Bangs(r.a, 2)
      [] r.o = "S" /\ r.n = "Icon" -> Bangs(r.a, 1) /\ OneLine(rows[i + 1])
      [] r.o = "S" /\ r.n = "Modifier" /\ r.p = "Highlight" -> OneLine(rows[i + 1])
      [] r.o = "V" /\ r.p = "Highlight" -> \E t \in 1..Len(po) : po[t] = r.a /\ o.tk[t].k = "Terminator" /\ o.tk[t].z - o.tk[t].a = Len(r.w)
      [] r.p = "Paragraph" /\ r.g = "Highlight" ->
           ~\E t \in 1..Len(po) : po[t] >= r.a /\ po[t] < r.a + Len(r.w)
               /\ (o.tk[t].k = "Terminator" \/ Bangs(po[t], 2))
      [] OTHER -> TRUE
X_C15(o) == Same(o, "C15")
P_C15(o) == X_C15(o) /\ D_C15(o)

(* C16: the body of a collapsible is what the same text is as a document.      *)
(* AllClosed: every opener opens one, i.e. none was taken back (the text after  *)
(* such an opener belongs to the paragraph it became part of) or is part of a  *)
(* callout's text; the same for closers                                        *)
Settled(o, rows, po, k, e) ==
  \A t \in 1..Len(o.tk) : (o.tk[t].k = k /\ o.tk[t].c = 0) =>
    \E i \in 1..Len(rows) :
       \/ rows[i].o = e /\ rows[i].n = "Collapsible" /\ rows[i].a = po[t]
       \/ rows[i].o = "V" /\ rows[i].p \in {"Code", "Metadata"} /\ po[t] >= rows[i].a /\ po[t] < rows[i].a + Len(rows[i].w)
AllClosed(o, rows, po) == Settled(o, rows, po, "CollapsibleStart", "S")
HasKind(tk, k) == \E i \in 1..Len(tk) : tk[i].k = k
Closed(src) == LET tk == Lex(src)
                   o == [src |-> src, tk |-> tk, ev |-> ParseTokens(src, tk)] IN
               (HasKind(tk, "CollapsibleStart") \/ HasKind(tk, "CollapsibleEnd")) =>
                 LET rows == Rows(o)
                     po   == Places(tk) IN
                 AllClosed(o, rows, po) /\ Settled(o, rows, po, "CollapsibleEnd", "E")
D_C16(o) ==
  LET rows == Rows(o)
      kept == Kept(o.src)
      From(a) == IF a < Len(kept) THEN (IF kept[a + 1] > 1 /\ Escaped(o.src)[kept[a + 1]] THEN kept[a + 1] - 1 ELSE kept[a + 1])
                 ELSE Len(o.src) + 1
  IN
  /\ \A i \in 1..Len(rows) : rows[i].n = "Collapsible" =>
        /\ rows[i].p = "Document"
        /\ rows[i].o = "S" => StartsWith(rows[i].w, <<LBRACE, PCT>>)
        /\ rows[i].o = "E" => StartsWith(rows[i].w, <<PCT, RBRACE>>)
  /\ (HasKind(o.tk, "CollapsibleStart") /\ AllClosed(o, rows, Places(o.tk))) =>
     \A i \in 1..Len(rows) : (rows[i].o = "S" /\ rows[i].n = "Document" /\ rows[i].p = "Collapsible") =>
        LET z == CloseOf(o.ev, i, 0)
            body == SubSeq(o.src, From(rows[i].a), From(rows[z].a) - 1)
            me == DenoteAll(o.ev, KidsOf(o.ev, i, BlockKinds), 0) IN
        (Grammatical(o.ev) /\ ~StartsWith(body, <<DASH, DASH, DASH>>) /\ Closed(body)) => Tree(body).body = me
X_C16(o) == Same(o, "C16") /\ (HasKind(o.tk, "CollapsibleStart") => View(o, "C16all") = View(Model(o.src), "C16all"))
P_C16(o) == X_C16(o) /\ D_C16(o)

(* C17 *)
MetaMark(tk, i) == tk[i].k = "Minus" /\ tk[i].e - tk[i].s = 3 /\ tk[i].c = 0
D_C17(o) ==
  LET there == Len(o.tk) > 0 /\ MetaMark(o.tk, 1) /\ \E i \in 2..Len(o.tk) : MetaMark(o.tk, i) IN
  /\ (o.doc.meta # <<>>) = there
  /\ there => LET q == CHOOSE i \in 2..Len(o.tk) : MetaMark(o.tk, i) /\ \A j \in 2..(i - 1) : ~MetaMark(o.tk, j) IN
              o.doc.meta = <<Trim(TokText(o, 2, q, <<>>))>>
X_C17(o) == View(o, "C17") = View(Model(o.src), "C17")
P_C17(o) == X_C17(o) /\ D_C17(o)

--------------------------------------------------------------------------------
(* C18 *)
P_C18(o) == o.doc2 = o.doc /\ o.out2 = o.out

--------------------------------------------------------------------------------
(* C19: trees built through the API: doc, out, doc2 *)
WS == {LF, CR, SP, 9}
NoBlank(s) == \A i \in 1..Len(s) : ~(LineBreakLen(s, i) > 0 /\ LineBreakLen(s, i + LineBreakLen(s, i)) > 0)
GoodText(s) == Len(s) > 0 /\ s[1] \notin WS /\ s[Len(s)] \notin WS /\ NoBlank(s)
GoodLine(s) == GoodText(s) /\ ~HasChar(s, LF) /\ ~HasChar(s, CR)
GoodOptLine(o) == o = <<>> \/ GoodLine(o[1])
(* no two texts in a row (a tree the parser can produce) *)
NoTwin(b) == \A i \in 1..(Len(b) - 1) : ~(b[i].t = "Text" /\ b[i + 1].t = "Text")
(* the closing mark of one node and the opening mark of the next would be one run *)
MarkOf(n) == IF n.t \in {"Bold", "Emphasis"} THEN "*" ELSE IF n.t \in {"Strikethrough", "CodeSpan"} THEN n.t ELSE ""
NoMerge(b) == \A i \in 1..(Len(b) - 1) : MarkOf(b[i]) = "" \/ MarkOf(b[i]) # MarkOf(b[i + 1])
GoodInline(n) ==
  CASE n.t = "Anchor" -> GoodText(n.text) /\ GoodText(n.url)
    [] n.t = "Bold"   -> n.body # <<>> /\ NoTwin(n.body) /\ NoMerge(n.body) /\ \A i \in 1..Len(n.body) : GoodText(n.body[i].s)
    [] OTHER          -> GoodText(n.s)
GoodInlines(b) == b # <<>> /\ NoTwin(b) /\ NoMerge(b) /\ \A i \in 1..Len(b) : GoodInline(b[i])
RECURSIVE GoodList(_, _)
GoodList(l, lv) ==
  /\ l.level = lv /\ l.body # <<>>
  /\ \A i \in 1..Len(l.body) :
       GoodInlines(l.body[i].text) /\ (l.body[i].nested = <<>> \/ GoodList(l.body[i].nested[1], lv + 1))
RECURSIVE GoodBlock(_)
GoodBlock(n) ==
  CASE n.t = "Paragraph"     -> GoodInlines(n.body)
    [] n.t = "Heading"       -> n.level \in 1..6 /\ GoodInlines(n.body)
    [] n.t = "Image"         -> GoodText(n.alt) /\ GoodText(n.src)
    [] n.t = "Images"        -> Len(n.body) >= 2 /\ \A i \in 1..Len(n.body) : GoodBlock(n.body[i])
    [] n.t = "Code"          -> GoodLine(n.lang) /\ GoodText(n.code)
    [] n.t = "List"          -> GoodList(n, 0)
    [] n.t = "Highlight"     -> GoodOptLine(n.title) /\ GoodOptLine(n.icon) /\ n.body # <<>>
                                /\ \A i \in 1..Len(n.body) : GoodInlines(n.body[i].body)
    [] n.t = "Embed"         -> GoodText(n.kind) /\ GoodText(n.args)
    [] n.t = "Collapsible"   -> GoodLine(n.title) /\ n.body # <<>> /\ \A i \in 1..Len(n.body) : GoodBlock(n.body[i])
    [] OTHER                 -> TRUE
GoodDoc(d) == (d.meta = <<>> \/ GoodText(d.meta[1])) /\ \A i \in 1..Len(d.body) : GoodBlock(d.body[i])
P_C19(o) == GoodDoc(o.doc) => o.doc2 = o.doc

--------------------------------------------------------------------------------
(* C20: the serialised form.  A JSON value is [j, ..]: "o" object with sorted  *)
(* pairs kv, "a" array a, "s" text s, "t" tag t, "n" number n, "z" null        *)
JObj(kv) == [j |-> "o", kv |-> kv]
JArr(a)  == [j |-> "a", a |-> a]
JStr(s)  == [j |-> "s", s |-> s]
JTag(t)  == [j |-> "t", t |-> t]
JNum(n)  == [j |-> "n", n |-> n]
JNull    == [j |-> "z"]
KV(k, v) == [k |-> k, v |-> v]
JOpt(x)  == IF x = <<>> THEN JNull ELSE JStr(x[1])
Tagged(t, v) == JObj(<<KV("type", JTag(t)), KV("value", v)>>)

JAnchor(n) == JObj(<<KV("text", JStr(n.text)), KV("url", JStr(n.url))>>)
JImage(n)  == JObj(<<KV("alt", JStr(n.alt)), KV("src", JStr(n.src))>>)
RECURSIVE JInline(_)
JInlines(b) == JArr([i \in 1..Len(b) |-> JInline(b[i])])
JInline(n) ==
  CASE n.t = "Anchor" -> Tagged("Anchor", JAnchor(n))
    [] n.t = "Bold"   -> Tagged("Bold", JObj(<<KV("body", JInlines(n.body))>>))
    [] OTHER          -> Tagged(n.t, JStr(n.s))
JBodyOf(b) == JObj(<<KV("body", JInlines(b))>>)
RECURSIVE JList(_)
JList(l) ==
  JObj(<<KV("body", JArr([i \in 1..Len(l.body) |->
            JObj(<<KV("nested_list", IF l.body[i].nested = <<>> THEN JNull ELSE JList(l.body[i].nested[1])),
                   KV("text", JInlines(l.body[i].text))>>)])),
         KV("level", JNum(l.level)),
         KV("list_type", JTag(IF l.kind = "OrderedList" THEN "Ordered" ELSE "Unordered"))>>)
RECURSIVE JBlock(_)
JBlock(n) ==
  CASE n.t = "Paragraph"   -> Tagged(n.t, JBodyOf(n.body))
    [] n.t = "Heading"     -> Tagged(n.t, JObj(<<KV("body", JInlines(n.body)), KV("level", JNum(n.level))>>))
    [] n.t = "Image"       -> Tagged(n.t, JImage(n))
    [] n.t = "Images"      -> Tagged(n.t, JObj(<<KV("body", JArr([i \in 1..Len(n.body) |-> JImage(n.body[i])]))>>))
    [] n.t = "Code"        -> Tagged(n.t, JObj(<<KV("code", JStr(n.code)), KV("lang", JStr(n.lang))>>))
    [] n.t = "List"        -> Tagged(n.t, JList(n))
    [] n.t = "Highlight"   -> Tagged(n.t, JObj(<<KV("body", JArr([i \in 1..Len(n.body) |-> JBodyOf(n.body[i].body)])),
                                                 KV("icon", JOpt(n.icon)), KV("title", JOpt(n.title))>>))
    [] n.t = "Embed"       -> Tagged(n.t, JObj(<<KV("args", JStr(n.args)), KV("kind", JStr(n.kind))>>))
    [] n.t = "Collapsible" -> Tagged(n.t, JObj(<<KV("body", JArr([i \in 1..Len(n.body) |-> JBlock(n.body[i])])),
                                                 KV("title", JStr(n.title))>>))
    [] OTHER               -> Tagged(n.t, JObj(<<>>))
JDoc(d) == JObj(<<KV("body", JArr([i \in 1..Len(d.body) |-> JBlock(d.body[i])])), KV("metadata", JOpt(d.meta))>>)
JEvent(e) ==
  JObj(<<KV("content", IF e.x.m THEN Tagged("Materialized", JStr(e.x.w))
                       ELSE Tagged("Span", JObj(<<KV("end", JNum(e.x.e)), KV("start", JNum(e.x.s))>>))),
         KV("kind", CASE e.o = "S" -> Tagged("Start", JTag(e.n))
                      [] e.o = "E" -> Tagged("End", JTag(e.n))
                      [] OTHER -> JObj(<<KV("type", JTag("Value"))>>))>>)
JEvents(ev) == JArr([i \in 1..Len(ev) |-> JEvent(ev[i])])
(* jd, je: the serialised tree and events; back: both read back as equal values *)
P_C20(o) == o.back /\ o.jd = JDoc(o.doc) /\ o.je = JEvents(o.ev)

--------------------------------------------------------------------------------
(* C21: agree: the comparisons made on the real values all came out equal *)
Contiguous(kept, a, n) == \A j \in (a + 1)..(a + n - 1) : kept[j + 1] = kept[j] + 1
D_C21(o) ==
  LET w == Walk(o)
      kept == Kept(o.src) IN
  /\ o.agree
  /\ w.ok => \A i \in 1..Len(o.ev) :
       LET n == Len(o.ev[i].x.w) IN
       o.ev[i].x.m = (n > 0 /\ ~Contiguous(kept, w.at[i], n))
P_C21(o) == D_C21(o)

--------------------------------------------------------------------------------
(* C22: observation of two texts: a, b, their trees da, db, the tree dj of     *)
(* a, blank line, b, and the tree dc of a collapsible with that body           *)
Reaching(tk, i) ==
  tk[i].c = 0 /\ \/ tk[i].k = "Backtick" /\ tk[i].e - tk[i].s = 3
                 \/ tk[i].k = "Bang" /\ tk[i].e - tk[i].s = 2
                 \/ tk[i].k \in {"CollapsibleStart", "CollapsibleEnd"}
(* nothing in running text could open or close a construct that reaches on *)
Complete(a) ==
  LET tk   == Lex(a)
      ev   == ParseTokens(a, tk)
      o    == [src |-> a, ev |-> ev]
      rows == Rows(o)
      po   == Places(tk)
      In(r, t) == po[t] >= r.a /\ po[t] < r.a + Len(r.w)
  IN
  /\ \A t \in 1..Len(tk) : Reaching(tk, t) =>
       \E i \in 1..Len(rows) :
          /\ In(rows[i], t)
          /\ \/ rows[i].n \in {"Code", "Highlight", "Collapsible"} /\ po[t] = rows[i].a
             \/ rows[i].o = "V" /\ rows[i].p \in {"Code", "Metadata"}
  /\ (Len(tk) > 0 /\ MetaMark(tk, 1)) => ev[1].n = "Metadata"
Joinable(a) == Len(a) = 0 \/ a[Len(a)] \notin {LF, CR, BSL}
NoMeta(a) == LET tk == Lex(a) IN ~(Len(tk) > 0 /\ MetaMark(tk, 1))
JoinText(a, b) == a \o LF2 \o b
CollText(a, b) == <<LBRACE, PCT, SP, 116, LF>> \o a \o LF2 \o b \o <<LF, PCT, RBRACE>>
C22Premise(o) == Complete(o.a) /\ Joinable(o.a) /\ NoMeta(o.b)
C22Coll(o) == C22Premise(o) /\ NoMeta(o.a) /\ o.a # <<>> /\ o.a[1] \notin {LF, CR} /\ Complete(o.b) /\ Joinable(o.b) /\ o.b # <<>>
P_C22(o) ==
  /\ C22Premise(o) => o.dj = DocNode(o.da.meta, o.da.body \o o.db.body)
  /\ C22Coll(o) => o.dc = DocNode(<<>>, <<CollNode(<<116>>, o.da.body \o o.db.body)>>)
ModelPair(a, b) ==
  [a |-> a, b |-> b, da |-> Tree(a), db |-> Tree(b), dj |-> Tree(JoinText(a, b)), dc |-> Tree(CollText(a, b))]

--------------------------------------------------------------------------------
(* C23: doc of a text with LF line ends, cdoc of the same text with CR LF *)
CrLf(s) == Replace(s, <<LF>>, <<CR, LF>>)
RECURSIVE InCr(_)
InCr(n) ==
  CASE n.t = "Anchor" -> AnchorNode(CrLf(n.text), CrLf(n.url))
    [] n.t = "Bold"   -> BoldNode([i \in 1..Len(n.body) |-> InCr(n.body[i])])
    [] OTHER          -> LeafNode(n.t, CrLf(n.s))
InsCr(b) == [i \in 1..Len(b) |-> InCr(b[i])]
OptCr(x) == IF x = <<>> THEN x ELSE <<CrLf(x[1])>>
RECURSIVE ListCr(_)
ListCr(l) ==
  ListNode(l.kind, l.level, [i \in 1..Len(l.body) |->
    ItemNode(InsCr(l.body[i].text), IF l.body[i].nested = <<>> THEN <<>> ELSE <<ListCr(l.body[i].nested[1])>>)])
RECURSIVE BlCr(_)
BlCr(n) ==
  CASE n.t = "Paragraph"   -> ParaNode(InsCr(n.body))
    [] n.t = "Heading"     -> HeadNode(n.level, InsCr(n.body))
    [] n.t = "Image"       -> ImageNode(CrLf(n.alt), CrLf(n.src))
    [] n.t = "Images"      -> ImagesNode([i \in 1..Len(n.body) |-> BlCr(n.body[i])])
    [] n.t = "Code"        -> CodeNode(CrLf(n.lang), CrLf(n.code))
    [] n.t = "List"        -> ListCr(n)
    [] n.t = "Highlight"   -> HighNode(OptCr(n.title), OptCr(n.icon), [i \in 1..Len(n.body) |-> BlCr(n.body[i])])
    [] n.t = "Embed"       -> EmbedNode(CrLf(n.kind), CrLf(n.args))
    [] n.t = "Collapsible" -> CollNode(CrLf(n.title), [i \in 1..Len(n.body) |-> BlCr(n.body[i])])
    [] OTHER               -> n
DocCr(d) == DocNode(OptCr(d.meta), [i \in 1..Len(d.body) |-> BlCr(d.body[i])])
C23Premise(src) == ~HasChar(src, CR) /\ ~HasEscaped(src, Escaped(src), LF)
P_C23(o) == C23Premise(o.src) => o.cdoc = DocCr(o.doc)

--------------------------------------------------------------------------------
(* C24 *)
NoEdgeBreak(s) == Len(s) = 0 \/ (s[1] \notin {LF, CR} /\ s[Len(s)] \notin {LF, CR})
RuleInlines(b) ==
  /\ NoTwin(b)
  /\ \A i \in 1..Len(b) :
       /\ b[i].t = "Text" => b[i].s # <<>>
       /\ b[i].t = "Bold" => /\ NoTwin(b[i].body)
                             /\ \A j \in 1..Len(b[i].body) : b[i].body[j].t = "Text" => b[i].body[j].s # <<>>
RECURSIVE RuleList(_, _)
RuleList(l, lv) ==
  /\ l.level = lv /\ l.body # <<>>
  /\ \A i \in 1..Len(l.body) :
       RuleInlines(l.body[i].text) /\ (l.body[i].nested # <<>> => RuleList(l.body[i].nested[1], lv + 1))
RECURSIVE RuleBlock(_, _)
RuleBlock(n, el) ==       \* el: the text has escaped line ends
  CASE n.t = "Paragraph"   -> n.body # <<>> /\ RuleInlines(n.body)
    [] n.t = "Heading"     -> n.level \in 1..6 /\ RuleInlines(n.body)
    [] n.t = "Images"      -> Len(n.body) >= 2
    [] n.t = "Code"        -> /\ Len(n.code) > 0 => n.code[Len(n.code)] \notin {LF, CR}
                              /\ el \/ ~HasChar(n.lang, LF)
    [] n.t = "List"        -> RuleList(n, 0)
    [] n.t = "Highlight"   -> /\ n.title = <<>> \/ el \/ ~HasChar(n.title[1], LF)
                              /\ n.icon = <<>> \/ el \/ ~HasChar(n.icon[1], LF)
                              /\ \A i \in 1..Len(n.body) : RuleInlines(n.body[i].body)
    [] n.t = "Collapsible" -> /\ el \/ ~HasChar(n.title, LF)
                              /\ \A i \in 1..Len(n.body) : RuleBlock(n.body[i], el)
    [] OTHER               -> TRUE
D_C24(o) ==
  LET el == HasEscaped(o.src, Escaped(o.src), LF) IN
  /\ o.doc.meta # <<>> => NoEdgeBreak(o.doc.meta[1])
  /\ \A i \in 1..Len(o.doc.body) : RuleBlock(o.doc.body[i], el)
P_C24(o) == D_C24(o)

--------------------------------------------------------------------------------
(* C25: contents assembled from tokens: src, tk, ps (indices of tokens, in any  *)
(* order), c what from_tokens makes of them, f what the conversion makes of     *)
(* them, agree (all ways to ask give the same)                                 *)
TokenText(src, t) == SubSeq(src, t.a, t.z - 1)
Follows(tk, ps, i) == tk[ps[i]].e = tk[ps[i + 1]].s
D_C25(o) ==
  LET n == Len(o.ps) IN
  /\ o.agree
  /\ o.c.w = Concat([j \in 1..n |-> TokenText(o.src, o.tk[o.ps[j]])])
  /\ o.c.m = (\E i \in 1..(n - 1) : ~Follows(o.tk, o.ps, i))
  /\ ~o.f.m
  /\ IF n = 0 THEN o.c.s = 0 /\ o.c.e = 0 /\ o.f.s = 0 /\ o.f.e = 0
     ELSE LET s == o.tk[o.ps[1]].s
              e == o.tk[o.ps[n]].e IN
          /\ o.f.s = s /\ o.f.e = e
          /\ ~o.c.m => o.c.s = s /\ o.c.e = e
P_C25(o) == D_C25(o)

(* a content being assembled, one token at a time *)
ContentInit == [m |-> FALSE, s |-> 0, e |-> 0, w |-> <<>>]
AddToken(src, x, t) ==
  LET w == TokenText(src, t) IN
  IF x.w = <<>> THEN [m |-> FALSE, s |-> t.s, e |-> t.e, w |-> w]
  ELSE IF ~x.m /\ x.e = t.s THEN [x EXCEPT !.e = t.e, !.w = @ \o w]
  ELSE [m |-> TRUE, s |-> 0, e |-> 0, w |-> x.w \o w]
RECURSIVE AssembleFrom(_, _, _, _, _)
AssembleFrom(src, tk, ps, i, x) ==
  IF i > Len(ps) THEN x ELSE AssembleFrom(src, tk, ps, i + 1, AddToken(src, x, tk[ps[i]]))
Assemble(src, tk, ps) == AssembleFrom(src, tk, ps, 1, ContentInit)
SpanOf(tk, ps) ==
  IF ps = <<>> THEN [m |-> FALSE, s |-> 0, e |-> 0]
  ELSE [m |-> FALSE, s |-> tk[ps[1]].s, e |-> tk[ps[Len(ps)]].e]
ModelPicks(src, tk, ps) ==
  [src |-> src, tk |-> tk, ps |-> ps, c |-> Assemble(src, tk, ps), f |-> SpanOf(tk, ps), agree |-> TRUE]

--------------------------------------------------------------------------------
(* C26: a tree built through the API: given (what the constructors were given), *)
(* doc (what the tree holds), out (the tree printed), parts (its blocks printed *)
(* one by one)                                                                 *)
RECURSIVE TrimLfEnd(_)
TrimLfEnd(s) == IF Len(s) > 0 /\ s[Len(s)] = LF THEN TrimLfEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimLfStart(_)
TrimLfStart(s) == IF Len(s) > 0 /\ s[1] = LF THEN TrimLfStart(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE BuiltBlock(_)
BuiltBlock(n) ==
  CASE n.t = "Code"        -> CodeNode(n.lang, TrimLfEnd(n.code))
    [] n.t = "Collapsible" -> CollNode(n.title, [i \in 1..Len(n.body) |-> BuiltBlock(n.body[i])])
    [] OTHER               -> n
BuiltDoc(d) ==
  DocNode(IF d.meta = <<>> THEN <<>> ELSE <<TrimLfStart(TrimLfEnd(d.meta[1]))>>, [i \in 1..Len(d.body) |-> BuiltBlock(d.body[i])])

Unescaped(s) == Plain(s, Kept(s))
(* a tree written down without any escapes *)
PlainBold(n) ==
  LET w == Concat([i \in 1..Len(n.body) |->
             CASE n.body[i].t = "Italic" -> <<USCORE>> \o n.body[i].s \o <<USCORE>>
               [] n.body[i].t = "Strikethrough" -> <<TILDE, TILDE>> \o n.body[i].s \o <<TILDE, TILDE>>
               [] OTHER -> n.body[i].s]) IN
  IF w = <<>> THEN <<>> ELSE <<STAR, STAR>> \o w \o <<STAR, STAR>>
PlainLink(a, b) == <<LSQ>> \o a \o <<RSQ, LPAR>> \o b \o <<RPAR>>
PlainInline(n) ==
  CASE n.t = "Anchor"        -> PlainLink(n.text, n.url)
    [] n.t = "Bold"          -> PlainBold(n)
    [] n.t = "Italic"        -> <<USCORE>> \o n.s \o <<USCORE>>
    [] n.t = "Strikethrough" -> <<TILDE, TILDE>> \o n.s \o <<TILDE, TILDE>>
    [] n.t = "CodeSpan"      -> IF n.s = <<>> THEN <<>> ELSE <<TICK>> \o n.s \o <<TICK>>
    [] n.t = "Emphasis"      -> <<STAR>> \o n.s \o <<STAR>>
    [] OTHER                 -> n.s
PlainInlines(b) == Concat([i \in 1..Len(b) |-> PlainInline(b[i])])
RECURSIVE PlainListFrom(_, _, _)
PlainListFrom(l, i, acc) ==
  IF i > Len(l.body) THEN acc
  ELSE LET it == l.body[i]
           w  == acc \o (IF i = 1 THEN <<>> ELSE <<LF>>) \o Repeat(SP, l.level)
                 \o (IF l.kind = "OrderedList" THEN <<PLUS, SP>> ELSE <<DASH, SP>>) \o PlainInlines(it.text) IN
       PlainListFrom(l, i + 1, IF it.nested = <<>> THEN w ELSE PlainListFrom(it.nested[1], 1, Append(w, LF)))
PlainList(l) == PlainListFrom(l, 1, <<>>)
(* a callout's paragraph is never left out *)
PlainHighPara(p) == LET w == PlainInlines(p.body) IN IF w = <<>> THEN <<LF>> ELSE w
PlainHighlight(n) ==
  <<BANG, BANG>> \o (IF n.title = <<>> THEN <<>> ELSE <<SP>> \o n.title[1]) \o <<LF>>
  \o (IF n.icon = <<>> THEN <<>> ELSE <<BANG, SP>> \o n.icon[1] \o <<LF>>)
  \o Join([i \in 1..Len(n.body) |-> PlainHighPara(n.body[i])], LF2)
  \o (IF n.body = <<>> THEN <<>> ELSE <<LF>>) \o <<BANG, BANG>>
RECURSIVE PlainBlock(_)
PlainBody(b) == Join([i \in 1..Len(b) |-> PlainBlock(b[i])], LF2)
PlainBlock(n) ==
  CASE n.t = "Paragraph"     -> PlainInlines(n.body)
    [] n.t = "Heading"       -> Repeat(HASH, n.level) \o <<SP>> \o PlainInlines(n.body)
    [] n.t = "Image"         -> <<BANG>> \o PlainLink(n.alt, n.src)
    [] n.t = "Images"        -> Join([i \in 1..Len(n.body) |-> PlainBlock(n.body[i])], <<LF>>)
    [] n.t = "Code"          -> <<TICK, TICK, TICK>> \o n.lang \o <<LF>> \o n.code \o <<LF, TICK, TICK, TICK>>
    [] n.t = "List"          -> PlainList(n)
    [] n.t = "Highlight"     -> PlainHighlight(n)
    [] n.t = "ThematicBreak" -> Repeat(DASH, 5)
    [] n.t = "Embed"         -> <<LBRACE, LBRACE>> \o n.kind \o <<PIPE>> \o n.args \o <<RBRACE, RBRACE>>
    [] OTHER                 -> <<LBRACE, PCT, SP>> \o n.title \o <<LF>> \o PlainBody(n.body) \o <<LF, PCT, RBRACE>>
PlainDoc(d) ==
  (IF d.meta = <<>> THEN <<>>
   ELSE <<DASH, DASH, DASH, LF>> \o d.meta[1] \o (IF EndsWith(d.meta[1], <<LF>>) THEN <<>> ELSE <<LF>>) \o <<DASH, DASH, DASH, LF, LF>>)
  \o PlainBody(d.body)
D_C26(o) ==
  /\ o.doc = BuiltDoc(o.given)
  /\ Unescaped(o.out) = PlainDoc(o.doc)
  /\ Len(o.parts) = Len(o.doc.body)
  /\ \A i \in 1..Len(o.parts) : Unescaped(o.parts[i]) = PlainBlock(o.doc.body[i])
P_C26(o) == D_C26(o)
ModelBuilt(d) ==
  LET b == BuiltDoc(d) IN
  [given |-> d, doc |-> b, out |-> Show(b), parts |-> [i \in 1..Len(b.body) |-> ShowBlock(b.body[i])]]

--------------------------------------------------------------------------------
(* C27: a text cut between two tokens: cuts[j] is the index i of a token, l the *)
(* tokens of the text up to its end and r those of the rest                    *)
Shifted(t, at, by, c, r) ==
  [t EXCEPT !.a = @ + at, !.z = @ + at, !.s = @ + by, !.e = @ + by, !.b = @ + by,
            !.c = IF t.r = 0 THEN @ + c ELSE @, !.r = @ + r]
Breaks(k) == CASE k = "Eol" -> 1 [] k = "Terminator" -> 2 [] OTHER -> 0
(* the rest, moved to where it begins *)
Rest(t, q) ==
  LET c == IF Breaks(t.k) > 0 THEN 0 ELSE t.c + t.z - t.a
      r == t.r + Breaks(t.k) IN
  [j \in 1..Len(q) |-> Shifted(q[j], t.z - 1, t.e, c, r)]
D_C27(o) ==
  \A j \in 1..Len(o.cuts) :
    LET i == o.cuts[j].i IN
    /\ o.cuts[j].l = SubSeq(o.tk, 1, i)
    /\ Rest(o.tk[i], o.cuts[j].r) = SubSeq(o.tk, i + 1, Len(o.tk))
P_C27(o) == D_C27(o)
ModelCuts(src, tk) ==
  [src |-> src, tk |-> tk,
   cuts |-> [i \in 1..Len(tk) |-> [i |-> i, l |-> Lex(SubSeq(src, 1, tk[i].z - 1)), r |-> Lex(SubSeq(src, tk[i].z, Len(src)))]]]

--------------------------------------------------------------------------------
(* C28: the events of two texts, and of the first, a blank line, the second    *)
MovedEv(e, by) ==
  IF e.x.m \/ e.x.w = <<>> THEN e ELSE [e EXCEPT !.x = [@ EXCEPT !.s = @ + by, !.e = @ + by]]
JoinedEv(a, ea, eb) ==
  LET n == U8Len(a)
      t == [o |-> "V", n |-> "", x |-> [m |-> FALSE, s |-> n, e |-> n + 2, w |-> LF2]] IN
  SubSeq(ea, 1, Len(ea) - 1) \o <<t>> \o [j \in 1..(Len(eb) - 1) |-> MovedEv(eb[j + 1], n + 2)]
D_C28(o) == C22Premise(o) => o.ej = JoinedEv(o.a, o.ea, o.eb)
P_C28(o) == D_C28(o)

--------------------------------------------------------------------------------
(* C29: a line that is a paragraph when alone, and the same line in other      *)
(* places: dp its tree, docs[k] the tree of PlacedText(k, src)                 *)
X1 == <<120>>
PlacesOfLines == 12
PlacedText(k, w) ==
  CASE k = 1 -> <<DASH, SP>> \o w                                              \* a list item
    [] k = 2 -> <<PLUS, SP, 120, LF, PLUS, SP>> \o w                           \* a later item
    [] k = 3 -> <<DASH, SP, 120, LF, SP, PLUS, SP>> \o w                       \* an item of a list in a list
    [] k = 4 -> <<BANG, BANG, LF>> \o w \o <<LF, BANG, BANG>>                   \* a callout
    [] k = 5 -> <<BANG, BANG, LF, 120, LF, LF>> \o w \o <<LF, BANG, BANG>>      \* its second paragraph
    [] k = 6 -> <<120, LF>> \o w                                               \* the second line of a paragraph
    [] k = 7 -> w \o <<LF, 120>>                                               \* the first line of two
    [] k = 8 -> <<120>> \o w                                                   \* not at the beginning of a line
    [] k = 9 -> <<LBRACE, PCT, SP, 120, LF>> \o w \o <<LF, PCT, RBRACE>>        \* a collapsible
    [] k = 10 -> <<LBRACE, PCT, SP, 120, LF, BANG, BANG, LF>> \o w \o <<LF, BANG, BANG, LF, PCT, RBRACE>>   \* a callout in a collapsible
    [] k = 11 -> <<LBRACE, PCT, SP, 120, LF, LBRACE, PCT, SP, 120, LF, DASH, SP, 120, LF, SP, DASH, SP>> \o w
                 \o <<LF, PCT, RBRACE, LF, PCT, RBRACE>>                        \* lists in collapsibles
    [] OTHER -> <<PLUS, SP, 120, LF, SP, DASH, SP, 120, LF, SP, SP, PLUS, SP>> \o w   \* the third level of lists
InlinesJoined(m, n) ==
  IF m # <<>> /\ n # <<>> /\ m[Len(m)].t = "Text" /\ n[1].t = "Text"
  THEN SubSeq(m, 1, Len(m) - 1) \o <<Txt(m[Len(m)].s \o n[1].s)>> \o SubSeq(n, 2, Len(n))
  ELSE m \o n
PlacedBlock(k, n) ==
  LET x == <<Txt(X1)>> IN
  CASE k = 1 -> ListNode("UnorderedList", 0, <<ItemNode(n, <<>>)>>)
    [] k = 2 -> ListNode("OrderedList", 0, <<ItemNode(x, <<>>), ItemNode(n, <<>>)>>)
    [] k = 3 -> ListNode("UnorderedList", 0, <<ItemNode(x, <<ListNode("OrderedList", 1, <<ItemNode(n, <<>>)>>)>>)>>)
    [] k = 4 -> HighNode(<<>>, <<>>, <<ParaNode(n)>>)
    [] k = 5 -> HighNode(<<>>, <<>>, <<ParaNode(x), ParaNode(n)>>)
    [] k = 6 -> ParaNode(InlinesJoined(<<Txt(<<120, LF>>)>>, n))
    [] k = 7 -> ParaNode(InlinesJoined(n, <<Txt(<<LF, 120>>)>>))
    [] k = 8 -> ParaNode(InlinesJoined(x, n))
    [] k = 9 -> CollNode(X1, <<ParaNode(n)>>)
    [] k = 10 -> CollNode(X1, <<HighNode(<<>>, <<>>, <<ParaNode(n)>>)>>)
    [] k = 11 -> CollNode(X1, <<CollNode(X1, <<ListNode("UnorderedList", 0,
                   <<ItemNode(x, <<ListNode("UnorderedList", 1, <<ItemNode(n, <<>>)>>)>>)>>)>>)>>)
    [] OTHER -> ListNode("OrderedList", 0, <<ItemNode(x, <<ListNode("UnorderedList", 1,
                   <<ItemNode(x, <<ListNode("OrderedList", 2, <<ItemNode(n, <<>>)>>)>>)>>)>>)>>)
(* nothing at its ends that means something beside its neighbours there *)
LineAlone(w) ==
  /\ w # <<>> /\ \A i \in 1..Len(w) : w[i] \notin {LF, CR}
  /\ w[1] \notin {SP, BANG, PCT, LBRACE} /\ w[Len(w)] # BSL
C29Premise(o) == LineAlone(o.src) /\ o.dp.meta = <<>> /\ Len(o.dp.body) = 1 /\ o.dp.body[1].t = "Paragraph"
D_C29(o) ==
  C29Premise(o) =>
    /\ Len(o.docs) = PlacesOfLines
    /\ \A k \in 1..PlacesOfLines : o.docs[k] = DocNode(<<>>, <<PlacedBlock(k, o.dp.body[1].body)>>)
P_C29(o) == D_C29(o)
ModelPlaces(src) ==
  [src |-> src, dp |-> Tree(src),
   docs |-> IF LineAlone(src) THEN [k \in 1..PlacesOfLines |-> Tree(PlacedText(k, src))] ELSE <<>>]
--------------------------------------------------------------------------------
(* C30: a text with every character that has no meaning replaced by another:   *)
(* rsrc, and what it gives: rtk, rev, rdoc, rout                               *)
MarkChars == {LF, CR, SP, BSL, TILDE, STAR, LBRACE, RBRACE, PCT, DASH, HASH, GT, BANG, TICK, PLUS, LSQ, RSQ, LPAR, RPAR, USCORE, PIPE}
Others == <<120, 48, 9, 160, 233, 128512, 65, 0, 46, 11, 8232, 133, 44, 65279, 769, 34, 47, 58, 12, 61, 64, 60, 8203, 12288, 57, 39, 38, 36, 63, 94, 59, 127, 1114111, 8211, 215, 40959>>
Other(c, k) == IF c \in MarkChars THEN c ELSE Others[((c + k) % Len(Others)) + 1]
(* C33 *)
Swapped(c) == IF c = DASH THEN PLUS ELSE IF c = PLUS THEN DASH ELSE c
MapText(f, s) == [i \in 1..Len(s) |-> IF f.swap THEN Swapped(s[i]) ELSE Other(s[i], f.k)]
MapOpt(f, x) == IF x = <<>> THEN <<>> ELSE <<MapText(f, x[1])>>
MapKind(f, n) ==
  IF ~f.swap THEN n
  ELSE CASE n = "OrderedList" -> "UnorderedList" [] n = "UnorderedList" -> "OrderedList" [] n = "Minus" -> "Plus" [] n = "Plus" -> "Minus" [] OTHER -> n
RECURSIVE MapInline(_, _)
MapInline(f, n) ==
  CASE n.t = "Bold"   -> [n EXCEPT !.body = [i \in 1..Len(n.body) |-> MapInline(f, n.body[i])]]
    [] n.t = "Anchor" -> [n EXCEPT !.text = MapText(f, @), !.url = MapText(f, @)]
    [] OTHER          -> [n EXCEPT !.s = MapText(f, @)]
MapInlines(f, b) == [i \in 1..Len(b) |-> MapInline(f, b[i])]
RECURSIVE MapList(_, _)
MapList(f, l) ==
  [l EXCEPT !.kind = MapKind(f, @),
            !.body = [i \in 1..Len(l.body) |->
               ItemNode(MapInlines(f, l.body[i].text), IF l.body[i].nested = <<>> THEN <<>> ELSE <<MapList(f, l.body[i].nested[1])>>)]]
RECURSIVE MapBlock(_, _)
MapBlock(f, n) ==
  CASE n.t \in {"Paragraph", "Heading"} -> [n EXCEPT !.body = MapInlines(f, @)]
    [] n.t = "Image"         -> [n EXCEPT !.alt = MapText(f, @), !.src = MapText(f, @)]
    [] n.t = "Images"        -> [n EXCEPT !.body = [i \in 1..Len(n.body) |-> MapBlock(f, n.body[i])]]
    [] n.t = "Code"          -> [n EXCEPT !.lang = MapText(f, @), !.code = MapText(f, @)]
    [] n.t = "List"          -> MapList(f, n)
    [] n.t = "Highlight"     -> [n EXCEPT !.title = MapOpt(f, @), !.icon = MapOpt(f, @), !.body = [i \in 1..Len(n.body) |-> MapBlock(f, n.body[i])]]
    [] n.t = "Embed"         -> [n EXCEPT !.kind = MapText(f, @), !.args = MapText(f, @)]
    [] n.t = "Collapsible"   -> [n EXCEPT !.title = MapText(f, @), !.body = [i \in 1..Len(n.body) |-> MapBlock(f, n.body[i])]]
    [] OTHER                 -> n
MapDoc(f, d) == DocNode(MapOpt(f, d.meta), [i \in 1..Len(d.body) |-> MapBlock(f, d.body[i])])
(* events and tokens up to the number of bytes of a character *)
MapEv(f, ev) == [i \in 1..Len(ev) |-> <<ev[i].o, MapKind(f, ev[i].n), ev[i].x.m, MapText(f, ev[i].x.w)>>]
EvRows(ev) == [i \in 1..Len(ev) |-> <<ev[i].o, ev[i].n, ev[i].x.m, ev[i].x.w>>]
MapTk(f, tk) == [i \in 1..Len(tk) |-> <<MapKind(f, tk[i].k), tk[i].a, tk[i].z, tk[i].c, tk[i].r, tk[i].x>>]
TkRows(tk) == [i \in 1..Len(tk) |-> <<tk[i].k, tk[i].a, tk[i].z, tk[i].c, tk[i].r, tk[i].x>>]
Renaming(src) == [swap |-> FALSE, k |-> Len(src)]
Renamed(src) == MapText(Renaming(src), src)
D_C30(o) ==
  LET f == Renaming(o.src) IN
  /\ o.rsrc = Renamed(o.src)
  /\ TkRows(o.rtk) = MapTk(f, o.tk)
  /\ EvRows(o.rev) = MapEv(f, o.ev)
  /\ o.rdoc = MapDoc(f, o.doc)
  /\ o.rout = MapText(f, o.out)
P_C30(o) == D_C30(o)
ModelRenamed(src, tk, ev, doc, out) ==
  LET r   == Renamed(src)
      rtk == Lex(r)
      rev == ParseTokens(r, rtk)
      d   == Build(rev).tree IN
  [src |-> src, tk |-> tk, ev |-> ev, doc |-> doc, out |-> out, rsrc |-> r, rtk |-> rtk, rev |-> rev, rdoc |-> d, rout |-> Show(d)]

--------------------------------------------------------------------------------
(* C31: the blocks of a document printed one by one, and the document put      *)
(* together in another way: parts are its blocks and those of its collapsibles, *)
(* alone[i] what printing and parsing only parts[i] gives, inside[i] the same   *)
(* as the body of a collapsible, back all its blocks in reverse order           *)
D_C31(o) ==
  /\ Len(o.alone) = Len(o.parts) /\ Len(o.inside) = Len(o.parts)
  /\ \A i \in 1..Len(o.parts) :
       /\ o.alone[i] = DocNode(<<>>, <<o.parts[i]>>)
       /\ o.inside[i] = DocNode(<<>>, <<CollNode(X1, <<o.parts[i]>>)>>)
  /\ o.back = DocNode(<<>>, [i \in 1..Len(o.doc.body) |-> o.doc.body[Len(o.doc.body) + 1 - i]])
P_C31(o) == D_C31(o)
RECURSIVE AllBlocks(_)
AllBlocks(b) == Concat([i \in 1..Len(b) |-> <<b[i]>> \o (IF b[i].t = "Collapsible" THEN AllBlocks(b[i].body) ELSE <<>>)])
Again(b) == Tree(Show(DocNode(<<>>, b)))
ModelEdited(d) ==
  LET parts == AllBlocks(d.body) IN
  [doc |-> d, parts |-> parts,
   alone  |-> [i \in 1..Len(parts) |-> Again(<<parts[i]>>)],
   inside |-> [i \in 1..Len(parts) |-> Again(<<CollNode(X1, <<parts[i]>>)>>)],
   back   |-> Again([i \in 1..Len(d.body) |-> d.body[Len(d.body) + 1 - i]])]

--------------------------------------------------------------------------------
(* C32: a backslash put in front of ordinary characters: docs[j] is the tree   *)
(* with one in front of every j-th of them                                     *)
RECURSIVE MoreFrom(_, _, _, _, _)
MoreFrom(src, j, i, n, acc) ==   \* n: ordinary characters so far
  IF i > Len(src) THEN acc
  ELSE IF src[i] = BSL /\ i < Len(src) THEN MoreFrom(src, j, i + 2, n, acc \o <<BSL, src[i + 1]>>)
  ELSE IF src[i] \in MarkChars THEN MoreFrom(src, j, i + 1, n, Append(acc, src[i]))
  ELSE MoreFrom(src, j, i + 1, n + 1, IF n % j = 0 THEN acc \o <<BSL, src[i]>> ELSE Append(acc, src[i]))
MoreEscapes(src, j) == MoreFrom(src, j, 1, IF j = 3 THEN 1 ELSE 0, <<>>)
D_C32(o) == Len(o.docs) = 3 /\ \A j \in 1..3 : o.docs[j] = o.doc
P_C32(o) == D_C32(o)
ModelMore(src, doc) == [src |-> src, doc |-> doc, docs |-> [j \in 1..3 |-> Tree(MoreEscapes(src, j))]]

--------------------------------------------------------------------------------
(* C33: a text with dashes and pluses exchanged, when no run of them has a     *)
(* meaning of its own                                                          *)
Exchange == [swap |-> TRUE, k |-> 0]
Exchanged(src) == MapText(Exchange, src)
C33Premise(o) == \A i \in 1..Len(o.tk) : o.tk[i].k \in {"Minus", "Plus"} => o.tk[i].z - o.tk[i].a \notin {3, 5}
D_C33(o) ==
  C33Premise(o) =>
    /\ o.rsrc = Exchanged(o.src)
    /\ TkRows(o.rtk) = MapTk(Exchange, o.tk)
    /\ EvRows(o.rev) = MapEv(Exchange, o.ev)
    /\ o.rdoc = MapDoc(Exchange, o.doc)
P_C33(o) == D_C33(o)
ModelExchanged(src, tk, ev, doc) ==
  LET r   == Exchanged(src)
      rtk == Lex(r)
      rev == ParseTokens(r, rtk) IN
  [src |-> src, tk |-> tk, ev |-> ev, doc |-> doc, rsrc |-> r, rtk |-> rtk, rev |-> rev, rdoc |-> Build(rev).tree]
=============================================================================
