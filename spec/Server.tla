------------------------------- MODULE Server -------------------------------
(* The language server: what its notifications do to the project, and what   *)
(* its requests answer, as functions of the state in which a message arrives.*)
(* How publishing interleaves with further messages is in MC_Server.          *)
(*                                                                           *)
(* Server state sv = [pr, cli]: the project, the include directories given    *)
(* on the command line.                                                       *)
EXTENDS Project

ServerInit(W, cli) == [pr |-> SetIncludes(W, EmptyProject, cli), cli |-> cli]

\* --- notifications -----------------------------------------------------------
DidOpen(W, sv, p, text) == [sv EXCEPT !.pr = AddText(W, @, p, text, FileTypeOf(p))]
\* every change has the full text; a list without changes changes nothing
DidChange(W, sv, p, texts) == IF texts = <<>> THEN sv ELSE DidOpen(W, sv, p, texts[Len(texts)])
DidClose(W, sv, p) == [sv EXCEPT !.pr = RemoveFile(W, @, p)]
\* incs: the configured include directories, or <<>> when the settings make no sense
DidConfigure(W, sv, incs) == [sv EXCEPT !.pr = SetIncludes(W, @, sv.cli \o incs)]

\* --- the file a request is about ------------------------------------------------
FileOfDoc(W, sv, p) ==                         \* <<record>> or <<>>
  LET q == KnownAs(W, p) IN
  IF q \in DOMAIN sv.pr.files /\ sv.pr.files[q].ok THEN <<sv.pr.files[q]>> ELSE <<>>

\* --- outline ----------------------------------------------------------------------
SymFile == 1
SymModule == 2
SymProperty == 7
SymField == 8
Sym(n, k, d, r, s, c) == [n |-> n, k |-> k, d |-> d, r |-> r, s |-> s, c |-> c]
Cover(a, b) == <<a[1], a[2], b[3], b[4]>>
RefText(r) == IF r.k = "reflabel" THEN <<38>> \o r.v ELSE <<38, 123>> \o (IF r.v = <<>> THEN <<47>> ELSE r.v) \o <<125>>
IncludeWord == <<105,110,99,108,117,100,101,32>>

RECURSIVE ItemSyms(_)
ItemSyms(c) ==
  FoldLeft(LAMBDA acc, x :
      CASE x.k = "prop" -> Append(acc, Sym(NameOf(x).v, SymProperty, 0, x.s, NameOf(x).s, <<>>))
        [] x.k = "node" -> Append(acc, Sym(NamePart(NameOf(x).v), SymModule, 0, x.s, NameOf(x).s, ItemSyms(x.c)))
        [] x.k = "delnodeitem" -> Append(acc, Sym(x.c[1].v, SymModule, 1, Cover(x.s, x.c[1].s), x.c[1].s, <<>>))
        [] x.k = "delpropitem" -> Append(acc, Sym(x.c[1].v, SymProperty, 1, Cover(x.s, x.c[1].s), x.c[1].s, <<>>))
        [] OTHER -> acc,
    <<>>, c)
Outline(tree) ==
  FoldLeft(LAMBDA acc, x :
      CASE x.k = "root" -> Append(acc, Sym(NameOf(x).v, SymModule, 0, x.s, NameOf(x).s, ItemSyms(x.c)))
        [] x.k = "refnode" -> Append(acc, Sym(RefText(x.c[1]), SymModule, 0, x.s, x.c[1].s, ItemSyms(x.c)))
        [] x.k = "include" -> Append(acc, Sym(IncludeWord \o x.v, SymFile, 0, x.s, x.c[1].s, <<>>))
        [] x.k = "delete-node" -> Append(acc, Sym(RefText(x.c[1]), SymModule, 1, Cover(x.s, x.c[1].s), x.c[1].s, <<>>))
        [] x.k = "omit-if-no-ref" -> Append(acc, Sym(RefText(x.c[1]), SymField, 0, Cover(x.s, x.c[1].s), x.c[1].s, <<>>))
        [] OTHER -> acc,
    <<>>, tree.c)

\* --- answers: <<>> (nothing) or <<answer>> ---------------------------------------------
Symbols(W, sv, p) == LET f == FileOfDoc(W, sv, p) IN IF f = <<>> THEN <<>> ELSE << Outline(f[1].tree) >>

ItemOfDoc(W, sv, p, l, c) == LET f == FileOfDoc(W, sv, p) IN IF f = <<>> THEN <<>> ELSE ItemAt(f[1].tree, l, c)
Hover(W, sv, p, l, c) ==
  LET it == ItemOfDoc(W, sv, p, l, c) IN
  IF it = <<>> THEN <<>>
  ELSE IF ~IsRef(it[1].k) THEN << it[1].v >>
  ELSE LET t == TargetOf(FileOfDoc(W, sv, p)[1].ctx, it[1]) IN
       IF t = <<>> THEN <<>> ELSE << <<78,111,100,101,32>> \o t[1].nm >>
Definition(W, sv, p, l, c) ==
  LET it == ItemOfDoc(W, sv, p, l, c) IN
  IF it = <<>> \/ it[1].k = "label" THEN <<>>
  ELSE LET rec == FileOfDoc(W, sv, p)[1] IN
       IF it[1].k = "include"
       THEN LET t == IncTarget(W, rec, it[1]) IN IF t.ok THEN << [f |-> t.p, s |-> NoSpan] >> ELSE <<>>
       ELSE LET t == TargetOf(rec.ctx, it[1]) IN IF t = <<>> THEN <<>> ELSE << [f |-> t[1].f, s |-> t[1].s] >>

\* --- the codes of diagnostics, as the client sees them
CodeName == [
  UnexpectedEOF |-> "unexpected_eof", Expected |-> "expected", ExpectedName |-> "expected_name",
  OddNumberOfBytestringElements |-> "odd_number_of_bytestring_elements", IntError |-> "int_error", NonDtsV1 |-> "non_dts_v1",
  NameTooLong |-> "name_too_long", IllegalChar |-> "illegal_char", IllegalStart |-> "illegal_start",
  UnresolvedReference |-> "unresolved_reference", NonStringInCompatible |-> "non_string_in_compatible",
  PathCannotBeEmpty |-> "path_cannot_be_empty", PropertyAfterNode |-> "property_after_node",
  UnbalancedParentheses |-> "unbalanced_parentheses", MisplacedDtsHeader |-> "misplaced_dts_header",
  DuplicateDirective |-> "duplicate_directive", IncorrectDirective |-> "incorrect_directive", ParserError |-> "parser_error",
  IOError |-> "io_error", ErrorsInInclude |-> "errors_in_include", CyclicDependencyError |-> "cyclic_dependency_error"]

\* --- what is published for a file ----------------------------------------------------------
Published(sv, p) == IF p \in DOMAIN sv.pr.files THEN DiagsOf(sv.pr, p) ELSE <<>>
=============================================================================
