------------------------------- MODULE Paths -------------------------------
(* The file system, as far as include files are concerned.                  *)
(* A path is the sequence of its components, a component is a byte sequence.*)
(* The world W = [fs, cwd]:  fs maps absolute paths to                       *)
(*   [t |-> "f", c |-> text]   a file      [t |-> "x"]  a file that is no UTF-8 text *)
(*   [t |-> "d"]  a directory              [t |-> "l", c |-> target]  a symlink     *)
EXTENDS Bytes

SLASH == 47
DOT == <<46>>
DOTDOT == <<46, 46>>

IsAbs(s) == s # <<>> /\ s[1] = SLASH
Missing == [ok |-> FALSE, p |-> <<>>]
Found(p) == [ok |-> TRUE, p |-> p]

IsDir(W, p) == p = <<>> \/ (p \in DOMAIN W.fs /\ W.fs[p].t = "d")

\* follow the components `rest` from the canonical path cur
RECURSIVE Walk(_, _, _, _)
Walk(W, cur, rest, fuel) ==
  IF rest = <<>> THEN Found(cur)
  ELSE IF ~IsDir(W, cur) THEN Missing
  ELSE LET c == Head(rest) IN
  IF c = <<>> \/ c = DOT THEN Walk(W, cur, Tail(rest), fuel)
  ELSE IF c = DOTDOT THEN Walk(W, IF cur = <<>> THEN cur ELSE SubSeq(cur, 1, Len(cur) - 1), Tail(rest), fuel)
  ELSE LET q == Append(cur, c) IN
       IF q \notin DOMAIN W.fs THEN Missing
       ELSE IF W.fs[q].t = "l" THEN
            IF fuel = 0 THEN Missing
            ELSE LET tgt == W.fs[q].c IN
                 Walk(W, IF IsAbs(tgt) THEN <<>> ELSE cur, SplitBy(tgt, SLASH) \o Tail(rest), fuel - 1)
       ELSE Walk(W, q, Tail(rest), fuel)

\* the canonical path of the path with the text s, which is relative to dir
Canon(W, dir, s) ==
  IF s = <<>> \/ 0 \in Range(s) THEN Missing
  ELSE IF IsAbs(s) THEN Walk(W, <<>>, SplitBy(s, SLASH), 40)
  ELSE Walk(W, <<>>, dir \o SplitBy(s, SLASH), 40)

Readable(W, p) == p \in DOMAIN W.fs /\ W.fs[p].t = "f"

\* --- where an /include/ is searched: in the directories dirs, then in the working directory ---
\* dirs: a sequence of Found(path) / Later(name), the latter standing for a directory that did not exist when it
\* was configured: what its name denotes is determined whenever an include is searched
Later(s) == [ok |-> FALSE, p |-> s]
Joined(dir, name) == IF dir = <<>> \/ IsAbs(name) THEN name ELSE dir \o <<SLASH>> \o name
RECURSIVE SearchIn(_, _, _)
SearchIn(W, dirs, name) ==
  IF dirs = <<>> THEN Canon(W, W.cwd, name)
  ELSE LET d == dirs[1]
           r == IF ~d.ok THEN Canon(W, W.cwd, Joined(d.p, name))
                ELSE IF name = <<>> THEN Walk(W, <<>>, d.p, 40)
                ELSE Canon(W, d.p, name)
       IN  IF r.ok THEN r ELSE SearchIn(W, Tail(dirs), name)

Parent(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)

\* --- file types -------------------------------------------------------------------------
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF s[i] = 46 THEN i ELSE LastDot(s, i - 1)
FileTypeOf(p) ==
  IF p = <<>> THEN "unknown" ELSE
  LET name == p[Len(p)]
      i == LastDot(name, Len(name))
      ext == IF i <= 1 THEN <<>> ELSE SubSeq(name, i + 1, Len(name))
  IN  IF ext = <<100,116,115>> THEN "dts"
      ELSE IF ext = <<100,116,115,105>> THEN "dtsi"
      ELSE IF ext \in {<<100,116,115,111>>, <<111,118,101,114,108,97,121>>} THEN "overlay"
      ELSE "unknown"

\* --- the order of paths --------------------------------------------------------------------
RECURSIVE BytesLess(_, _, _), PathLess(_, _, _)
BytesLess(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BytesLess(a, b, i + 1)
PathLess(p, q, i) ==
  IF i > Len(q) THEN FALSE ELSE IF i > Len(p) THEN TRUE
  ELSE IF p[i] # q[i] THEN BytesLess(p[i], q[i], 1) ELSE PathLess(p, q, i + 1)
SortPaths(S) == SetToSortSeq(S, LAMBDA p, q : PathLess(p, q, 1))
=============================================================================
