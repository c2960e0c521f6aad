------------------------------- MODULE Streams -------------------------------
(* Hand-built event streams (C05, C04).  One step appends one event and hands  *)
(* it to the tree builder; every prefix is a stream of its own.                *)
EXTENDS Props, TLC, Json, CSV, IOUtils

CONSTANTS Kinds,      \* sequence of node kinds
          MaxLen,
          Mode        \* "any": any event; "nested": ends match; "grammar": only what the grammar allows

VARIABLES ev, bs, open
vars == <<ev, bs, open>>

Kinds_line  == <<"Document", "Paragraph", "Bold", "Heading", "Italic", "Anchor">>
Kinds_list  == <<"Document", "UnorderedList", "OrderedList", "ListItem", "Paragraph">>
Kinds_block == <<"Document", "Collapsible", "Modifier", "Highlight", "Icon", "Paragraph", "Code">>
Kinds_part  == <<"Document", "Metadata", "Images", "Image", "Title", "Destination", "Embed", "Anchor">>
Kinds_rest  == <<"Document", "ThematicBreak", "Embed", "CodeSpan", "Emphasis", "Strikethrough", "Metadata", "Heading">>
Kinds_all   == <<"Document", "Metadata", "Paragraph", "Heading", "Bold", "Italic", "Strikethrough", "CodeSpan", "Emphasis",
                 "Anchor", "Title", "Destination", "Image", "Images", "Code", "Modifier", "UnorderedList", "OrderedList",
                 "ListItem", "Highlight", "Icon", "ThematicBreak", "Embed", "Collapsible">>

Word(w) == [m |-> TRUE, s |-> 0, e |-> 0, w |-> w]
(* what a start of this kind holds, and the values that can be given *)
StartWord(n) == IF n = "Heading" THEN <<HASH, HASH, SP>> ELSE <<>>
Words == {<<97>>, <<LF>>, <<98, CR, LF>>}

Init == ev = <<>> /\ bs = BuildInit /\ open = <<>>
Give(e) == ev' = Append(ev, e) /\ bs' = BuildStep(bs, e)
Parent == IF open = <<>> THEN "" ELSE open[Len(open)]
(* may an n follow in p?  Members and fixed parts of the grammar, order aside *)
Fits(n, p) ==
  CASE p = ""            -> n \in {"Document", "Metadata"}
    [] p = "Collapsible" -> n \in {"Modifier", "Document"}
    [] p = "Anchor"      -> n \in {"Title", "Destination"}
    [] p = "Image"       -> n \in {"Title", "Destination"}
    [] p = "ListItem"    -> n \in {"Paragraph"} \cup ListKinds
    [] p = "Code"        -> n = "Modifier"
    [] p = "Highlight"   -> n \in {"Modifier", "Icon", "Paragraph"}
    [] OTHER             -> n \in Members(p)
Start ==
  \E i \in 1..Len(Kinds) :
    /\ Mode = "grammar" => Fits(Kinds[i], Parent)
    /\ Give(EvS(Kinds[i], Word(StartWord(Kinds[i])))) /\ open' = Append(open, Kinds[i])
Value ==
  \E w \in Words :
    /\ Mode = "grammar" => (TextIn(Parent) \/ Parent \in RawKinds \cup {"Code", "Embed"})
    /\ Give(EvV(Word(w))) /\ open' = open
End ==
  IF Mode = "any"
  THEN \E i \in 1..Len(Kinds) :
         Give(EvE(Kinds[i], Word(<<>>))) /\ open' = IF open = <<>> THEN open ELSE SubSeq(open, 1, Len(open) - 1)
  ELSE open # <<>> /\ Give(EvE(Parent, Word(<<>>))) /\ open' = SubSeq(open, 1, Len(open) - 1)
Next == Len(ev) < MaxLen /\ (Start \/ Value \/ End)
Spec == Init /\ [][Next]_vars

R == BuildResult(bs)
(* the builder has failed exactly if the stream so far cannot be completed *)
RECURSIVE Completable(_, _, _)
Completable(e, i, st) ==
  IF i > Len(e) THEN TRUE
  ELSE IF e[i].o = "S" THEN Completable(e, i + 1, Append(st, e[i].n))
  ELSE IF e[i].o = "E" THEN st # <<>> /\ st[Len(st)] = e[i].n /\ Completable(e, i + 1, SubSeq(st, 1, Len(st) - 1))
  ELSE Completable(e, i + 1, st)
InvFails == bs.err = ~Completable(ev, 1, <<>>)
Inv05 == D_C05([ev |-> ev, ok |-> R.ok, doc |-> R.tree, iok |-> R.ok, idoc |-> R.tree])
Inv04 == D_C04([ev |-> ev, ok |-> R.ok, doc |-> R.tree])
(* frames never outnumber the open starts, and an error is for good *)
InvDepth == ~bs.err => Len(bs.stack) = Len(open) + 1
Sticky == [][bs.err => bs'.err]_vars

(* every stream is a behaviour; in the other modes only the balanced ones are replayed *)
Emit ==
  (Mode = "any" \/ Balanced(ev)) =>
    CSVWrite("%1$s", <<ToJson([kind |-> "ops", ev |-> ev, ok |-> R.ok, doc |-> R.tree])>>, IOEnv.BEHAVIOURS)
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Count ==
  /\ Balanced(ev') => TLCSet(1, TLCGet(1) + 1)
  /\ Grammatical(ev') => TLCSet(2, TLCGet(2) + 1)
  /\ bs'.err => TLCSet(3, TLCGet(3) + 1)
RECURSIVE SumAll(_, _)
SumAll(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumAll(q, i - 1)
Counted ==
  LET all == TLCGet("all") IN
  JsonSerialize(IOEnv.COUNTS, <<<<"balanced", SumAll(all[1], Len(all[1]))>>, <<"grammatical", SumAll(all[2], Len(all[2]))>>,
                                <<"rejected", SumAll(all[3], Len(all[3]))>>>>)
=============================================================================
