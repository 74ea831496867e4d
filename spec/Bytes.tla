------------------------------- MODULE Bytes -------------------------------
(* Texts are sequences of bytes (UTF-8).  In recorded texts, a long part of a *)
(* comment may be abbreviated: the number 1000 + k stands for k letters and   *)
(* -k for k line breaks.  This module has the character                       *)
(* classes, the position table and small helpers shared by all modules.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Lower  == 97..122
Upper  == 65..90
Alpha  == Lower \cup Upper
Digit  == 48..57
AlNum  == Alpha \cup Digit
WS     == {32, 9, 10, 12, 13}                \* ASCII white space
NL     == 10
Cont   == 128..191                           \* UTF-8 continuation bytes
\* , . _ + - ? #
NamePunct == {44, 46, 95, 43, 45}
PropChars == AlNum \cup NamePunct \cup {63, 35}
NodeChars == AlNum \cup NamePunct
LabelChars == AlNum \cup {95}
LabelStart == Alpha \cup {95}

\* the width of the character started by a byte, in UTF-16 code units
Width(b) == IF b >= 1000 THEN b - 1000 ELSE IF b \in Cont THEN 0 ELSE IF b >= 240 THEN 2 ELSE 1

\* LSP positions <<line, column>> before every byte and at the end of the text
PosTable(T) ==
  FoldLeft(LAMBDA acc, b : Append(acc,
             LET p == acc[Len(acc)]
             IN  IF b < 0 THEN <<p[1] - b, 0>>
                 ELSE IF b = NL THEN <<p[1] + 1, 0>> ELSE <<p[1], p[2] + Width(b)>>),
           << <<0, 0>> >>, T)

\* a document: its bytes, their positions, its length
Doc(T) == [T |-> T, P |-> PosTable(T), n |-> Len(T)]

Span(D, a, b) == <<D.P[a][1], D.P[a][2], D.P[b][1], D.P[b][2]>>
PtSpan(D, a)  == Span(D, a, a)                       \* empty span
\* span of one column starting at a
ChSpan(D, a)  == <<D.P[a][1], D.P[a][2], D.P[a][1], D.P[a][2] + 1>>
NoSpan == <<0, 0, 0, 0>>

PosLeq(l1, c1, l2, c2) == l1 < l2 \/ (l1 = l2 /\ c1 <= c2)
SpanContains(s, l, c) == PosLeq(s[1], s[2], l, c) /\ ~PosLeq(s[3], s[4], l, c)

RECURSIVE ScanWhile(_, _, _, _)
ScanWhile(T, n, i, S) ==
  IF i > n THEN i ELSE IF T[i] \in S THEN ScanWhile(T, n, i + 1, S) ELSE i

RECURSIVE ScanUntil(_, _, _, _)              \* first index >= i with byte c, or n+1
ScanUntil(T, n, i, c) ==
  IF i > n THEN i ELSE IF T[i] = c THEN i ELSE ScanUntil(T, n, i + 1, c)

\* first index (>= 1) of a byte not in S, 0 if there is none
FirstNotIn(s, S) == LET i == ScanWhile(s, Len(s), 1, S) IN IF i > Len(s) THEN 0 ELSE i

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, i) ==
  LET j == ScanUntil(s, Len(s), i, c)
  IN  IF j > Len(s) THEN << SubSeq(s, i, Len(s)) >>
      ELSE << SubSeq(s, i, j - 1) >> \o SplitFrom(s, c, j + 1)
\* like Rust's str::split: "a//b" has an empty element
SplitBy(s, c) == SplitFrom(s, c, 1)

IsSuffixOf(suf, s) == Len(suf) <= Len(s) /\ SubSeq(s, Len(s) - Len(suf) + 1, Len(s)) = suf

\* --- rendering bytes as (TLC) strings, for messages --------------------
\* Characters outside printable ASCII are shown as "?", once per character,
\* the recorded observations are mapped in the same way.
Printable == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
  "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S",
  "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`",
  "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
  "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
ChStr(b) == IF b \in Cont THEN "" ELSE IF b >= 32 /\ b <= 126 THEN Printable[b - 31] ELSE "?"
BytesStr(s) == FoldLeft(LAMBDA acc, b : acc \o ChStr(b), "", s)

\* strings as bytes
Code == [c \in {Printable[j] : j \in DOMAIN Printable} \cup {"\n", "\t"} |->
           IF c = "\n" THEN <<10>> ELSE IF c = "\t" THEN <<9>> ELSE << (CHOOSE j \in DOMAIN Printable : Printable[j] = c) + 31 >>]
CodeOf(c) == IF c \in DOMAIN Code THEN Code[c] ELSE <<195, 169>>      \* the only other character used is é
StrBytes(s) == FoldLeft(LAMBDA acc, j : acc \o CodeOf(SubSeq(s, j, j)), <<>>, [j \in 1..Len(s) |-> j])
=============================================================================
