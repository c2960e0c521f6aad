-------------------------------- MODULE Calls --------------------------------
(* Several callers using the library at once (C21).  A caller opens a text,    *)
(* takes tokens from its iterator one by one, asks for events, builds a tree   *)
(* from them with either builder, asks for the tree in one step, or prints the *)
(* tree it holds; callers interleave in every way.  What is returned is kept   *)
(* in hist.                                                                    *)
EXTENDS Props, TLC, Json, CSV, IOUtils

CONSTANTS Callers,    \* number of callers
          Texts,      \* sequence of texts
          MaxSteps

VARIABLES held, hist
vars == <<held, hist>>

Texts_two   == <<<<42, 42, 97>>, <<45, 32, 92, 233, 10>>>>
Texts_mixed == <<<<LBRACE, PCT, SP, 116, LF, 97, LF, PCT, RBRACE>>, <<35, 32, 97>>, <<>>>>
Texts_block == <<<<TICK, TICK, TICK, LF, 97>>, <<BANG, BANG, LF, 97, LF, BANG, BANG>>, <<97, LF, LF, 98>>>>

Nobody == [t |-> 0, pos |-> 0, lx |-> LexInit, ev |-> <<>>, tree |-> <<>>]
Init ==
  \E f \in [1..Callers -> 1..Len(Texts)] :
    /\ held = [c \in 1..Callers |-> [Nobody EXCEPT !.t = f[c]]]
    /\ hist = [c \in 1..Callers |-> [c |-> c, a |-> "open", t |-> f[c], i |-> 0, r |-> <<>>]]
Text(c) == Texts[held[c].t]
(* a: what was asked; i: which token; r: what came back *)
Log(c, a, t, i, r) == hist' = Append(hist, [c |-> c, a |-> a, t |-> t, i |-> i, r |-> r])

RECURSIVE LexUntil(_, _, _)
LexUntil(s, l, n) == IF l.fin \/ Len(l.out) >= n THEN l ELSE LexUntil(s, LexStep(s, l), n)

Open(c) ==
  \E t \in 1..Len(Texts) \ {held[c].t} :
    /\ held' = [held EXCEPT ![c] = [Nobody EXCEPT !.t = t]]
    /\ Log(c, "open", t, 0, <<>>)
NextToken(c) ==
  /\ LET h == held[c]  l == LexUntil(Text(c), h.lx, h.pos + 1) IN
     /\ held' = [held EXCEPT ![c].lx = l, ![c].pos = @ + 1]
     /\ Log(c, "next", h.t, h.pos + 1, IF h.pos + 1 <= Len(l.out) THEN <<l.out[h.pos + 1]>> ELSE <<>>)
Events(c) ==
  /\ LET e == Parse(Text(c)) IN held' = [held EXCEPT ![c].ev = <<e>>] /\ Log(c, "events", held[c].t, 0, e)
BuildWith(c, how) ==
  /\ held[c].ev # <<>>
  /\ LET d == Build(held[c].ev[1]).tree IN
     held' = [held EXCEPT ![c].tree = <<d>>] /\ Log(c, how, held[c].t, 0, d)
OneStep(c) ==
  /\ LET d == Tree(Text(c)) IN held' = [held EXCEPT ![c].tree = <<d>>] /\ Log(c, "onestep", held[c].t, 0, d)
Print1(c) ==
  /\ held[c].tree # <<>>
  /\ Log(c, "print", held[c].t, 0, Show(held[c].tree[1])) /\ UNCHANGED held
(* look at the tree once more *)
Look(c) == held[c].tree # <<>> /\ Log(c, "look", held[c].t, 0, held[c].tree[1]) /\ UNCHANGED held

Next ==
  /\ Len(hist) < Callers + MaxSteps
  /\ \E c \in 1..Callers :
       Open(c) \/ NextToken(c) \/ Events(c) \/ BuildWith(c, "fallible") \/ BuildWith(c, "infallible")
       \/ OneStep(c) \/ Print1(c) \/ Look(c)
Spec == Init /\ [][Next]_vars

(* trees are trees, however they were made *)
Class(a) == IF a \in {"fallible", "infallible", "onestep", "look"} THEN "tree" ELSE a
Key(e) == <<Class(e.a), e.t, e.i>>
(* C21: the same question about the same text has the same answer *)
Inv21 == \A i, j \in 1..Len(hist) : Key(hist[i]) = Key(hist[j]) => hist[i].r = hist[j].r
(* and it is the one a single caller gets *)
InvAlone ==
  \A i \in 1..Len(hist) :
    LET e == hist[i] s == Texts[e.t] IN
    e.r = CASE Class(e.a) = "tree"   -> Tree(s)
            [] e.a = "print"  -> Show(Tree(s))
            [] e.a = "events" -> Parse(s)
            [] e.a = "next"   -> (IF e.i <= Len(Lex(s)) THEN <<Lex(s)[e.i]>> ELSE <<>>)
            [] OTHER          -> <<>>
(* what one caller does, no other sees *)
Alone == [][\E c \in 1..Callers : \A d \in 1..Callers : d # c => held'[d] = held[d]]_vars

Emit ==
  Len(hist) = Callers + MaxSteps =>
    CSVWrite("%1$s", <<ToJson([kind |-> "calls", texts |-> Texts, hist |-> [i \in 1..Len(hist) |-> [c |-> hist[i].c, a |-> hist[i].a, t |-> hist[i].t, i |-> hist[i].i]]])>>,
             IOEnv.BEHAVIOURS)
ASSUME TLCSet(1, 0)
Overlap(h) == \E i, j \in 1..Len(h) : h[i].c # h[j].c /\ Key(h[i]) = Key(h[j]) /\ h[i].a # "open"
Count == (Len(hist') = Callers + MaxSteps /\ Overlap(hist')) => TLCSet(1, TLCGet(1) + 1)
RECURSIVE SumAll(_, _)
SumAll(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumAll(q, i - 1)
Counted == LET all == TLCGet("all") IN
           JsonSerialize(IOEnv.COUNTS, <<<<"histories in which two callers ask the same", SumAll(all[1], Len(all[1]))>>>>)
=============================================================================
