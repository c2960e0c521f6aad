-------------------------------- MODULE Text --------------------------------
(* Text is a sequence of Unicode code points (integers).  Byte offsets are     *)
(* those of its UTF-8 encoding.                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

LF == 10      CR == 13      SP == 32     BSL == 92
TILDE == 126  STAR == 42    LBRACE == 123 RBRACE == 125 PCT == 37
DASH == 45    HASH == 35    GT == 62     BANG == 33    TICK == 96
PLUS == 43    LSQ == 91     RSQ == 93    LPAR == 40    RPAR == 41
USCORE == 95  PIPE == 124

U8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE U8LenAcc(_, _, _)
U8LenAcc(s, i, acc) == IF i > Len(s) THEN acc ELSE U8LenAcc(s, i + 1, acc + U8(s[i]))
U8Len(s) == U8LenAcc(s, 1, 0)

\* offs[i] = byte offset of character i (1-based); offs[Len+1] = byte length
RECURSIVE OffsAcc(_, _, _, _)
OffsAcc(s, i, b, acc) ==
  IF i > Len(s) THEN Append(acc, b) ELSE OffsAcc(s, i + 1, b + U8(s[i]), Append(acc, b))
Offsets(s) == OffsAcc(s, 1, 0, <<>>)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* character at i, or 0 when out of range (0 is never compared with a mark)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0

MatchAt(s, i, pat) ==
  /\ i + Len(pat) - 1 <= Len(s)
  /\ \A j \in 1..Len(pat) : s[i + j - 1] = pat[j]

StartsWith(s, pat) == MatchAt(s, 1, pat)
EndsWith(s, pat) == Len(s) >= Len(pat) /\ MatchAt(s, Len(s) - Len(pat) + 1, pat)
Contains(s, pat) == \E i \in 1..Len(s) : MatchAt(s, i, pat)
HasChar(s, c) == \E i \in 1..Len(s) : s[i] = c

\* non-overlapping replacement from the left
RECURSIVE ReplaceAcc(_, _, _, _, _)
ReplaceAcc(s, i, pat, rep, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF MatchAt(s, i, pat) THEN ReplaceAcc(s, i + Len(pat), pat, rep, acc \o rep)
  ELSE ReplaceAcc(s, i + 1, pat, rep, Append(acc, s[i]))
Replace(s, pat, rep) ==
  IF \E i \in 1..Len(s) : MatchAt(s, i, pat) THEN ReplaceAcc(s, 1, pat, rep, <<>>) ELSE s

\* put a backslash in front of every occurrence of pat
Esc(s, pat) == Replace(s, pat, <<BSL>> \o pat)
EscChar(s, c) == Replace(s, <<c>>, <<BSL, c>>)

(* trimming removes the characters line breaks are made of *)
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF Len(s) > 0 /\ s[Len(s)] \in {LF, CR} THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimStart(_)
TrimStart(s) == IF Len(s) > 0 /\ s[1] \in {LF, CR} THEN TrimStart(SubSeq(s, 2, Len(s))) ELSE s
Trim(s) == TrimStart(TrimEnd(s))

RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN <<>> ELSE Append(Repeat(c, n - 1), c)

RECURSIVE ConcatAcc(_, _, _)
ConcatAcc(ss, i, acc) == IF i > Len(ss) THEN acc ELSE ConcatAcc(ss, i + 1, acc \o ss[i])
Concat(ss) == ConcatAcc(ss, 1, <<>>)

RECURSIVE JoinAcc(_, _, _, _)
JoinAcc(ss, i, sep, acc) ==
  IF i > Len(ss) THEN acc
  ELSE JoinAcc(ss, i + 1, sep, IF i = 1 THEN ss[1] ELSE acc \o sep \o ss[i])
Join(ss, sep) == JoinAcc(ss, 1, sep, <<>>)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
=============================================================================
