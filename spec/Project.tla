------------------------------ MODULE Project ------------------------------
(* A project: the files that were added, everything they include, and the    *)
(* diagnostics of all of them.                                               *)
(*                                                                           *)
(* Project state pr = [inc, files]                                           *)
(*   inc:   the configured include directories (Found(p) / Later(n))         *)
(*   files: path -> [ok, tree, pds, ft, text, ip, has, ctx, ads]              *)
(*     ok/tree/pds: result of the parser;  ip: where its includes are searched *)
(*     has/ctx/ads: result of the analysis                                     *)
EXTENDS Analysis

EmptyProject == [inc |-> <<>>, files |-> EmptyFn]

\* Parsing is a pure function of the text; the operator can be overridden to share work.
ParseText(text) == Parse(Doc(text))

IncludesOf(rec) == IF rec.ok THEN SelectSeq(rec.tree.c, LAMBDA x : x.k = "include") ELSE <<>>
IncTarget(W, rec, n) == SearchIn(W, rec.ip, n.v)

Dummy == [ok |-> FALSE, tree |-> N("none", NoSpan, <<>>, <<>>), pds |-> <<>>, ft |-> "unknown",
          text |-> <<>>, ip |-> <<>>, has |-> FALSE, ctx |-> EmptyCtx, ads |-> <<>>]

\* --- parsing a file and, if they are not yet known, the files it includes -------------
RECURSIVE ParseFile(_, _, _, _, _), LoadInclude(_, _, _, _)
ParseFile(W, pr, p, text, ft) ==
  LET r == ParseText(text)
      rec == [ok |-> r.ok, tree |-> r.tree, pds |-> r.ds, ft |-> ft, text |-> text,
              ip |-> <<Found(Parent(p))>> \o pr.inc, has |-> FALSE, ctx |-> EmptyCtx, ads |-> <<>>]
      pr1 == [pr EXCEPT !.files = Put(@, p, Dummy)]
      pr2 == FoldLeft(LAMBDA acc, n : LoadInclude(W, acc, rec, n), pr1, IncludesOf(rec))
  IN  [pr2 EXCEPT !.files = Put(@, p, rec)]
LoadInclude(W, pr, rec, n) ==
  LET t == IncTarget(W, rec, n) IN
  IF ~t.ok \/ t.p \in DOMAIN pr.files \/ ~Readable(W, t.p) THEN pr
  ELSE ParseFile(W, pr, t.p, W.fs[t.p].c, FileTypeOf(t.p))

\* the includes of all files that are not (or no longer) part of the project
LoadMissing(W, pr) ==
  FoldLeft(LAMBDA acc, p :
      FoldLeft(LAMBDA acc2, n : LoadInclude(W, acc2, pr.files[p], n), acc, IncludesOf(pr.files[p])),
    pr, SortPaths(DOMAIN pr.files))

\* --- analysis, each file after the files it includes -----------------------------------
Edges(W, files) ==                             \* <<includer, included>>
  UNION { { <<p, t.p>> : t \in { x \in { IncTarget(W, files[p], n) : n \in Range(IncludesOf(files[p])) } : x.ok } }
          : p \in DOMAIN files }

RECURSIVE OrderFrom(_, _)
OrderFrom(E, rem) ==
  IF rem = <<>> THEN <<>>
  ELSE LET R == Range(rem)
           free == { j \in DOMAIN rem : ~\E q \in R : <<rem[j], q>> \in E }
           j == IF free = {} THEN 1 ELSE CHOOSE i \in free : \A i2 \in free : i <= i2
       IN  <<rem[j]>> \o OrderFrom(E, RemoveAt(rem, j))

RECURSIVE Reach(_, _)                          \* everything reachable from the set S along E
Reach(E, S) == LET S2 == S \cup { e[2] : e \in { x \in E : x[1] \in S } } IN IF S2 = S THEN S ELSE Reach(E, S2)
ReachFrom(E, p) == Reach(E, { e[2] : e \in { x \in E : x[1] = p } })      \* in at least one step
OnCycle(E, p) == p \in ReachFrom(E, p)

HasErrors(rec) == (\E j \in DOMAIN rec.pds : Severity(rec.pds[j].k) = "error")
               \/ (\E j \in DOMAIN rec.ads : Severity(rec.ads[j].k) = "error")

\* An include statement.  s = [a, g]: analysis state of the file, the includes seen so far.
AInclude(W, files, s, rec, n) ==
  LET t == IncTarget(W, rec, n)
      a == s.a
      io == Diag("IOError", n.s, "io")
  IN  IF ~t.ok THEN [s EXCEPT !.a = Add(a, io)]
      ELSE LET g == s.g \cup {<<a.f, t.p>>} IN
      IF OnCycle(g, t.p) THEN [a |-> Add(a, Diag("CyclicDependencyError", n.s, "cycle")), g |-> g]
      ELSE IF t.p \notin DOMAIN files
           THEN [a |-> AddIf(a, ~Readable(W, t.p), io), g |-> g]
      ELSE LET o == files[t.p]
               b == AddIf(a, HasErrors(o), Diag("ErrorsInInclude", n.s, "Included file contains errors"))
           IN  [a |-> IF o.has THEN [b EXCEPT !.ctx = Merge(o.ctx, @)] ELSE b, g |-> g]

AnalyzeFile(W, files, p, g) ==                 \* [a, g]
  LET rec == files[p]
      s == FoldLeft(LAMBDA acc, n :
              IF n.k = "include" THEN AInclude(W, files, acc, rec, n)
              ELSE [acc EXCEPT !.a = AStatement(@, n)],
            [a |-> AInit(p, rec.ft), g |-> g], rec.tree.c)
  IN  [a |-> AFinish(s.a), g |-> s.g]

AnalyzeAll(W, pr) ==
  LET cleared == [p \in DOMAIN pr.files |-> [pr.files[p] EXCEPT !.has = FALSE, !.ctx = EmptyCtx, !.ads = <<>>]]
      order == OrderFrom(Edges(W, pr.files), SortPaths(DOMAIN pr.files))
      res == FoldLeft(LAMBDA acc, p :
               IF ~acc.files[p].ok THEN acc
               ELSE LET r == AnalyzeFile(W, acc.files, p, acc.g) IN
                    [files |-> [acc.files EXCEPT ![p].has = TRUE, ![p].ctx = r.a.ctx, ![p].ads = r.a.ds], g |-> r.g],
             [files |-> cleared, g |-> {}], order)
  IN  [pr EXCEPT !.files = res.files]

\* --- the operations ---------------------------------------------------------------------
\* the path under which a file is known: its canonical path, or the given path if there is no such file
KnownAs(W, p) == LET r == Walk(W, <<>>, p, 40) IN IF r.ok THEN r.p ELSE p

Evaluate(W, pr) == AnalyzeAll(W, LoadMissing(W, pr))
AddText(W, pr, p, text, ft) == Evaluate(W, ParseFile(W, pr, KnownAs(W, p), text, ft))

\* reading a file from disk: [ok, pr]
AddFile(W, pr, name) ==
  LET t == Canon(W, W.cwd, name) IN
  IF ~t.ok \/ ~Readable(W, t.p) THEN [ok |-> FALSE, pr |-> pr]
  ELSE [ok |-> TRUE, pr |-> AddText(W, pr, t.p, W.fs[t.p].c, FileTypeOf(t.p))]

\* a removed file that is still included counts as it is on disk
RemoveFile(W, pr, p) == LET q == KnownAs(W, p) IN Evaluate(W, [pr EXCEPT !.files = [x \in DOMAIN @ \ {q} |-> @[x]]])

\* all files search their includes in the new directories
SetIncludes(W, pr, names) ==
  LET inc == [j \in DOMAIN names |-> LET c == Canon(W, W.cwd, names[j]) IN IF c.ok THEN c ELSE Later(names[j])] IN
  Evaluate(W, [inc |-> inc, files |-> [x \in DOMAIN pr.files |-> [pr.files[x] EXCEPT !.ip = <<Found(Parent(x))>> \o inc]]])

DiagsOf(pr, p) == LET q == pr.files[p] IN q.pds \o q.ads

\* --- cycles --------------------------------------------------------------------------------
\* files whose diagnostics may depend on where a cycle of includes is cut
Affected(E, p) == \E q \in ReachFrom(E, p) \cup {p} : OnCycle(E, q)

\* the diagnostics of the structural rules
StructureKinds == {"PropertyAfterNode", "IncorrectDirective", "NonDtsV1", "DuplicateDirective", "MisplacedDtsHeader",
                   "NonStringInCompatible", "ParserError", "UnbalancedParentheses"}
=============================================================================
