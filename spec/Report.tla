-------------------------------- MODULE Report --------------------------------
(* The command line tool: a run reads one file (and everything it includes),  *)
(* prints a block for every diagnostic, and ends with a verdict.               *)
EXTENDS Project

\* --- rendering -----------------------------------------------------------------
CR == 13
Lines(T) == LET ls == SplitBy(T, NL) IN
  [j \in DOMAIN ls |-> IF j < Len(ls) /\ ls[j] # <<>> /\ ls[j][Len(ls[j])] = CR THEN SubSeq(ls[j], 1, Len(ls[j]) - 1) ELSE ls[j]]
LineAt(ls, l) == IF l + 1 \in DOMAIN ls THEN ls[l + 1] ELSE <<>>

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Times(b, n) == [j \in 1..n |-> b]
Larger(a, b) == IF a > b THEN a ELSE b

\* number of characters of the line that are before a column (columns count UTF-16 code units)
CharsBefore(line, col) ==
  LET r == FoldLeft(LAMBDA acc, b : IF b \in Cont \/ acc.u >= col THEN acc ELSE [u |-> acc.u + Width(b), c |-> acc.c + 1],
                    [u |-> 0, c |-> 0], line)
  IN  r.c + Larger(0, col - r.u)
CharCount(line) == Len(SelectSeq(line, LAMBDA b : b \notin Cont))
\* the blank space under the first k characters: tabs stay, so that what follows is aligned
BlankUnder(line, k) ==
  LET heads == SelectSeq(line, LAMBDA b : b \notin Cont) IN
  [j \in 1..(IF k < Len(heads) THEN k ELSE Len(heads)) |-> IF heads[j] \in WS THEN heads[j] ELSE 32]

Bar == <<32, 124>>
\* sev --> p:l:c        pad: second line     src: third line     mark: fourth line up to the message     m: message
Block(p, lines, d) ==
  LET line == LineAt(lines, d.s[1])
      num == Decimal(d.s[1] + 1)
      from == CharsBefore(line, d.s[2])
      to == IF d.s[1] = d.s[3] THEN CharsBefore(line, d.s[4]) ELSE CharCount(line)
  IN  [sev |-> Severity(d.k), p |-> p, l |-> d.s[1] + 1, c |-> d.s[2] + 1,
       pad |-> Times(32, Len(num)) \o Bar,
       src |-> num \o Bar \o <<32>> \o line,
       mark |-> Times(32, Len(num)) \o Bar \o <<32>> \o BlankUnder(line, from) \o Times(94, Larger(1, to - from)),
       m |-> d.m]

\* --- a run ------------------------------------------------------------------------
\* [read, pr]: whether the file could be read, the project afterwards
Load(W, name, incs) ==
  LET r == AddFile(W, SetIncludes(W, EmptyProject, incs), name) IN [read |-> r.ok, pr |-> r.pr]
Success(run) == run.read /\ \A p \in DOMAIN run.pr.files : DiagsOf(run.pr, p) = <<>>
BlocksOf(run, p) ==
  LET lines == TLCEval(Lines(run.pr.files[p].text)) ds == DiagsOf(run.pr, p) IN [j \in DOMAIN ds |-> Block(p, lines, ds[j])]
===============================================================================
