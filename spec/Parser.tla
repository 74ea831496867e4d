------------------------------- MODULE Parser -------------------------------
(* The parser: a recursive-descent parser over on-demand tokens that reports *)
(* diagnostics and recovers from missing semicolons.                         *)
(*                                                                           *)
(* State st = [i, ex, lp, pk, ds]: lexer state (see Lexer), index after the  *)
(* token or comment before the last lexed token, the token that was looked   *)
(* at but not consumed (at most one), the diagnostics so far.                *)
(* Every production returns [e, v, st]: e = <<>> and the syntax tree v, or   *)
(* e = <<diagnostic>>: the file cannot be parsed.                            *)
(*                                                                           *)
(* Syntax trees are records [k, s, v, c]: kind, span, text (bytes), children.*)
(* Diagnostics are records [k, s, m]: error code, span, message.             *)
EXTENDS Lexer

Diag(k, s, m) == [k |-> k, s |-> s, m |-> m]
N(k, s, v, c) == [k |-> k, s |-> s, v |-> v, c |-> c]

\* --- how tokens are called in messages -----------------------------------
TokName(k) ==
  IF k \in {";", "/", "=", "[", "]", "(", ")", "<", ">", ",", "{", "}"} THEN "'" \o k \o "'"
  ELSE IF k \in {"refpath", "reflabel"} THEN "reference"
  ELSE IF k = "ident" THEN "identifier"
  ELSE IF k \in {"label", "string", "number"} THEN k
  ELSE "/" \o k \o "/"
RECURSIVE JoinNames(_)
JoinNames(ks) == IF Len(ks) = 1 THEN TokName(ks[1]) ELSE TokName(ks[1]) \o ", " \o JoinNames(Tail(ks))
Expected(s, ks) ==
  Diag("Expected", s, IF Len(ks) = 1 THEN "Expected " \o TokName(ks[1]) ELSE "Expected one of " \o JoinNames(ks))
EofDiag(s) == Diag("UnexpectedEOF", s, "Unexpected End of File")

\* --- state -----------------------------------------------------------------
Init0 == [i |-> 1, ex |-> TRUE, lp |-> 1, pk |-> <<>>, ds |-> <<>>]
Report(st, d) == [st EXCEPT !.ds = Append(@, d)]
ReportAll(st, ds) == IF ds = <<>> THEN st ELSE [st EXCEPT !.ds = @ \o ds]

Peek(D, st) ==
  IF st.pk # <<>> THEN st
  ELSE LET r == Lex(D, st.i, st.ex) IN [st EXCEPT !.i = r.i, !.ex = r.ex, !.lp = r.lp, !.pk = <<r.t>>]
\* consume the token that was looked at
Drop(st) == [st EXCEPT !.pk = <<>>]
Kind(st) == st.pk[1].k

TSpan(D, t) == Span(D, t.a, t.b)

Ok(v, st) == [e |-> <<>>, v |-> v, st |-> st]
Err(d, st) == [e |-> <<d>>, v |-> <<>>, st |-> st]

\* consume the next token, which must exist: v is the token
NextTok(D, st) ==
  LET p == Peek(D, st) IN
  IF Kind(p) = "eof" THEN Err(EofDiag(PtSpan(D, st.i)), Drop(p)) ELSE Ok(p.pk[1], Drop(p))
\* look at the next token, which must exist: v is the token
PeekTok(D, st) ==
  LET p == Peek(D, st) IN
  IF Kind(p) = "eof" THEN Err(EofDiag(PtSpan(D, st.i)), p) ELSE Ok(p.pk[1], p)
\* consume the next token, which must be of kind k
ExpectTok(D, st, k) ==
  LET p == Peek(D, st) IN
  IF Kind(p) = "eof" THEN Err(EofDiag(PtSpan(D, st.i)), Drop(p))
  ELSE IF Kind(p) = k THEN Ok(p.pk[1], Drop(p))
  ELSE Err(Expected(PtSpan(D, st.i), <<k>>), Drop(p))

\* A semicolon.  When it is missing, parsing goes on as if it was there; a character
\* that cannot start a token is taken for a mistyped semicolon.
\* v = <<token>> or <<>>
Semicolon(D, st) ==
  LET p == Peek(D, st)
      k == Kind(p)
  IN  IF k = ";" THEN Ok(<<p.pk[1]>>, Drop(p))
      ELSE IF k = "eof" THEN Ok(<<>>, Report(p, Expected(PtSpan(D, p.lp), <<";">>)))
      ELSE IF k = "unknown"
           THEN Ok(<<>>, Report([Drop(p) EXCEPT !.ex = TRUE], Expected(TSpan(D, p.pk[1]), <<";">>)))
      ELSE Ok(<<>>, Report(p, Expected(ChSpan(D, p.lp), <<";">>)))

\* --- names -------------------------------------------------------------------
\* the diagnostics of the name `s` (bytes) that starts at index a of the document and has the span sp
CheckIdent(D, a, sp, s, chars, starts, what) ==
  LET bad == FirstNotIn(s, chars) IN
  IF bad # 0 THEN
    LET p == Span(D, a + bad - 1, a + bad - 1)
    IN  << Diag("IllegalChar", <<p[1], p[2], p[1], p[2] + Width(s[bad])>>,
             "Illegal char '" \o ChStr(s[bad]) \o "' in " \o what) >>
  ELSE IF s = <<>> THEN << Diag("ExpectedName", sp, "Expected " \o what) >>
  ELSE (IF Len(s) > 31 THEN
          << Diag("NameTooLong", sp, what \o " should only have 31 characters but has " \o ToString(Len(s)) \o " characters") >>
        ELSE <<>>)
       \o (IF s[1] \notin starts THEN << Diag("IllegalStart", sp, what \o " may not start with " \o ChStr(s[1])) >> ELSE <<>>)

AnyByte == 0..255
CheckLabel(D, a, sp, s) == CheckIdent(D, a, sp, s, LabelChars, LabelStart, "label")
CheckProp(D, a, sp, s)  == CheckIdent(D, a, sp, s, PropChars, AnyByte, "property")
SymbolsName == <<95,95,115,121,109,98,111,108,115,95,95>>
\* node names: the part before the first @ and the unit address after it
NamePart(s) == SubSeq(s, 1, ScanUntil(s, Len(s), 1, 64) - 1)
HasUnit(s)  == ScanUntil(s, Len(s), 1, 64) <= Len(s)
UnitPart(s) == SubSeq(s, ScanUntil(s, Len(s), 1, 64) + 1, Len(s))
CheckNode(D, a, sp, s) ==
  IF s = SymbolsName THEN <<>>
  ELSE CheckIdent(D, a, sp, NamePart(s), NodeChars, Alpha, "node name")
       \o (IF ~HasUnit(s) THEN <<>>
           ELSE LET q == a + Len(NamePart(s)) + 1
                    p == D.P[q]
                IN  CheckIdent(D, q, <<p[1], p[2], sp[3], sp[4]>>, UnitPart(s), NodeChars, AnyByte, "node name"))

\* the diagnostics of the elements of a path whose text starts at index a
RECURSIVE CheckElems(_, _, _)
CheckElems(D, a, els) ==
  IF els = <<>> THEN <<>>
  ELSE (IF els[1] = <<>> THEN <<>> ELSE CheckNode(D, a, Span(D, a, a + Len(els[1])), els[1]))
       \o CheckElems(D, a + Len(els[1]) + 1, Tail(els))

\* paths without empty elements; rendered as /a/b@1 (the root: empty)
PathElems(v) == SelectSeq(SplitBy(v, 47), LAMBDA el : el # <<>>)
PathBytes(els) == FoldLeft(LAMBDA acc, el : acc \o <<47>> \o el, <<>>, els)

\* --- references: [v: tree, ds: diagnostics] -----------------------------------
RefNode(D, t) ==
  IF t.k = "reflabel"
  THEN [v |-> N("reflabel", TSpan(D, t), t.v, <<>>), ds |-> CheckLabel(D, t.a, TSpan(D, t), t.v)]
  ELSE LET els == SplitBy(t.v, 47) IN
       [v |-> N("refpath", TSpan(D, t), PathBytes(PathElems(t.v)), <<>>),
        ds |-> (IF t.v = <<>> THEN << Diag("PathCannotBeEmpty", TSpan(D, t), "Path cannot be empty") >> ELSE <<>>)
               \o CheckElems(D, t.a + 2, els)]
IsRef(k) == k \in {"reflabel", "refpath"}

\* --- numbers --------------------------------------------------------------------
\* Numbers are sequences of 16-bit limbs, least significant first.
DigitVal(b) == IF b \in Digit THEN b - 48 ELSE IF b \in Lower THEN b - 87 ELSE IF b \in Upper THEN b - 55 ELSE 99
RECURSIVE MulAdd(_, _, _, _)                   \* limbs * r + x: <<limbs, carry>>
MulAdd(ls, j, r, x) ==
  IF j > Len(ls) THEN <<ls, x>>
  ELSE LET q == ls[j] * r + x IN MulAdd([ls EXCEPT ![j] = q % 65536], j + 1, r, q \div 65536)
RECURSIVE Digits(_, _, _, _)                   \* <<limbs>> or <<limbs, error message>>
Digits(s, j, r, ls) ==
  IF j > Len(s) THEN <<ls>>
  ELSE IF DigitVal(s[j]) >= r THEN <<ls, "invalid digit found in string">>
  ELSE LET q == MulAdd(ls, 1, r, DigitVal(s[j])) IN
       IF q[2] # 0 THEN <<ls, "number too large to fit in target type">> ELSE Digits(s, j + 1, r, q[1])
ParseDigits(s, r, zero) == IF s = <<>> THEN <<zero, "cannot parse integer from empty string">> ELSE Digits(s, 1, r, zero)
Number(s, zero) ==
  IF Len(s) = 1 THEN ParseDigits(s, 10, zero)
  ELSE IF s[1] = 48 /\ s[2] = 120 THEN ParseDigits(SubSeq(s, 3, Len(s)), 16, zero)
  ELSE IF s[1] = 48 THEN ParseDigits(Tail(s), 8, zero)
  ELSE ParseDigits(s, 10, zero)
Zero32 == <<0, 0>>
Zero64 == <<0, 0, 0, 0>>
\* the number token t: [v, ds]
NumNode(D, t, zero) ==
  LET q == Number(t.v, zero) IN
  IF Len(q) = 1 THEN [v |-> N("num", TSpan(D, t), q[1], <<>>), ds |-> <<>>]
  ELSE [v |-> N("num", TSpan(D, t), zero, <<>>), ds |-> << Diag("IntError", TSpan(D, t), q[2]) >>]

\* --- cells ------------------------------------------------------------------------
\* v: TRUE if the parentheses were balanced
RECURSIVE SkipParens(_, _, _)
SkipParens(D, st, depth) ==
  LET p == Peek(D, st)
      k == Kind(p)
  IN  IF k = "eof" THEN Ok(FALSE, p)
      ELSE IF k = "(" THEN SkipParens(D, Drop(p), depth + 1)
      ELSE IF k = ")" THEN IF depth = 1 THEN Ok(TRUE, Drop(p)) ELSE SkipParens(D, Drop(p), depth - 1)
      ELSE SkipParens(D, Drop(p), depth)

\* one cell, whose token t was just consumed: Err is not fatal
Cell(D, t, st) ==
  IF IsRef(t.k) THEN LET r == RefNode(D, t) IN Ok(r.v, ReportAll(st, r.ds))
  ELSE IF t.k = "number" THEN LET r == NumNode(D, t, Zero32) IN Ok(r.v, ReportAll(st, r.ds))
  ELSE IF t.k = "(" THEN
    LET r == SkipParens(D, st, 1) IN
    Ok(N("expr", NoSpan, <<>>, <<>>),
       IF r.v THEN r.st ELSE Report(r.st, Diag("UnbalancedParentheses", TSpan(D, t), "Unbalanced parentheses")))
  ELSE Err(Expected(TSpan(D, t), <<"number", "reflabel", "(">>), st)

\* labels in values have no meaning, but they must be labels
SkipLabel(D, st) ==
  LET p == Peek(D, st)
      t == p.pk[1]
  IN  IF Kind(p) = "label" THEN ReportAll(Drop(p), CheckLabel(D, t.a, TSpan(D, t), t.v)) ELSE p

RECURSIVE Cells(_, _, _)
Cells(D, st, acc) ==                          \* v = <<cells, end token>>
  LET q == PeekTok(D, SkipLabel(D, st)) IN
  IF q.e # <<>> THEN q
  ELSE IF q.v.k = ">" THEN Ok(<<acc, q.v>>, Drop(q.st))
  ELSE LET r == Cell(D, q.v, Drop(q.st)) IN
       IF r.e = <<>> THEN Cells(D, r.st, Append(acc, r.v)) ELSE Cells(D, Report(r.st, r.e[1]), acc)

\* --- byte strings -------------------------------------------------------------------
HexPairs(s) == [j \in 1..(Len(s) \div 2) |-> DigitVal(s[2 * j - 1]) * 16 + DigitVal(s[2 * j])]
ByteString(D, t) ==                           \* [v, ds]
  LET bad(d) == [v |-> N("bytes", TSpan(D, t), <<>>, <<>>), ds |-> <<d>>] IN
  IF t.k \notin {"number", "ident"} THEN bad(Expected(TSpan(D, t), <<"number", "ident">>))
  ELSE IF Len(t.v) % 2 # 0
       THEN bad(Diag("OddNumberOfBytestringElements", TSpan(D, t), "Number of elements in byte string must be even"))
  ELSE IF \E j \in DOMAIN t.v : DigitVal(t.v[j]) >= 16 THEN bad(Diag("IntError", TSpan(D, t), "invalid digit found in string"))
  ELSE [v |-> N("bytes", TSpan(D, t), HexPairs(t.v), <<>>), ds |-> <<>>]

RECURSIVE ByteStrings(_, _, _)
ByteStrings(D, st, acc) ==
  LET q == PeekTok(D, SkipLabel(D, st)) IN
  IF q.e # <<>> THEN q
  ELSE IF q.v.k = "]" THEN Ok(<<acc, q.v>>, Drop(q.st))
  ELSE LET r == ByteString(D, q.v) IN ByteStrings(D, ReportAll(Drop(q.st), r.ds), Append(acc, r.v))

\* --- property values ------------------------------------------------------------------
Bits(D, st) ==                                \* an optional /bits/ with its width
  LET p == Peek(D, st) IN
  IF Kind(p) # "bits" THEN Ok(<<>>, p)
  ELSE LET q == NextTok(D, Drop(p)) IN
       IF q.e # <<>> THEN q
       ELSE Ok(<<>>, IF q.v.k = "number" THEN ReportAll(q.st, NumNode(D, q.v, Zero32).ds)
                     ELSE Report(q.st, Expected(TSpan(D, q.v), <<"number">>)))

Value(D, st) ==
  LET b == Bits(D, st) IN
  IF b.e # <<>> THEN b ELSE
  LET q == NextTok(D, b.st)
      t == q.v
  IN  IF q.e # <<>> THEN q
      ELSE IF t.k = "string" THEN Ok(N("str", TSpan(D, t), t.v, <<>>), q.st)
      ELSE IF t.k = "<" THEN
        LET r == Cells(D, q.st, <<>>) IN
        IF r.e # <<>> THEN r ELSE Ok(N("cells", Span(D, t.a, r.v[2].b), <<>>, r.v[1]), r.st)
      ELSE IF IsRef(t.k) THEN LET r == RefNode(D, t) IN Ok(r.v, ReportAll(q.st, r.ds))
      ELSE IF t.k = "[" THEN
        LET r == ByteStrings(D, q.st, <<>>) IN
        IF r.e # <<>> THEN r ELSE Ok(N("bytestrings", Span(D, t.a, r.v[2].b), <<>>, r.v[1]), r.st)
      ELSE Err(Expected(TSpan(D, t), <<"string", "<", "reflabel", "[">>), q.st)

RECURSIVE Values(_, _, _)
Values(D, st, acc) ==
  LET r == Value(D, SkipLabel(D, st)) IN
  IF r.e # <<>> THEN r
  ELSE LET q == PeekTok(D, SkipLabel(D, r.st)) IN
       IF q.e # <<>> THEN q
       ELSE IF q.v.k = "," THEN Values(D, Drop(q.st), Append(acc, r.v))
       ELSE Ok(Append(acc, r.v), q.st)

\* --- nodes -----------------------------------------------------------------------------
\* an identifier (v: the token) with the name check of a node or a property
NodeNameTok(D, st) ==
  LET q == NextTok(D, st) IN
  IF q.e # <<>> THEN q
  ELSE IF q.v.k = "ident" THEN Ok(q.v, ReportAll(q.st, CheckNode(D, q.v.a, TSpan(D, q.v), q.v.v)))
  ELSE Err(Expected(TSpan(D, q.v), <<"ident">>), q.st)
PropNameTok(D, st) ==
  LET q == NextTok(D, st) IN
  IF q.e # <<>> THEN q
  ELSE IF q.v.k = "ident" THEN Ok(q.v, ReportAll(q.st, CheckProp(D, q.v.a, TSpan(D, q.v), q.v.v)))
  ELSE Err(Expected(TSpan(D, q.v), <<"ident">>), q.st)

LabelNode(D, l) == [j \in DOMAIN l |-> N("label", TSpan(D, l[j]), l[j].v, <<>>)]
OmitNode(D, o) == [j \in DOMAIN o |-> N("omitmark", TSpan(D, o[j]), <<>>, <<>>)]

AfterNode(on, s) == IF on THEN << Diag("PropertyAfterNode", s, "Properties must be placed before nodes") >> ELSE <<>>
BadOmit(D, o) ==
  IF o = <<>> THEN <<>>
  ELSE << Diag("IncorrectDirective", TSpan(D, o[1]), "The /omit-if-no-ref/ directive can only be used on nodes") >>

\* the start index of an item with optional label l and name token id
ItemStart(l, id) == IF l = <<>> THEN id.a ELSE l[1].a

\* "{" items "}" ";"    v = [items, end]: trees, end token
RECURSIVE Payload(_, _), Items(_, _, _, _)
Payload(D, st) ==
  LET q == ExpectTok(D, st, "{") IN IF q.e # <<>> THEN q ELSE Items(D, q.st, <<>>, FALSE)

Items(D, st0, acc, seen) ==                   \* seen: a node was seen before
  LET q0 == NextTok(D, st0) IN
  IF q0.e # <<>> THEN q0
  ELSE IF q0.v.k = "delete-node" THEN
    LET q1 == NodeNameTok(D, q0.st) IN
    IF q1.e # <<>> THEN q1
    ELSE LET q2 == Semicolon(D, q1.st) IN
         Items(D, q2.st, Append(acc, N("delnodeitem", TSpan(D, q0.v), <<>>, << N("name", TSpan(D, q1.v), q1.v.v, <<>>) >>)), seen)
  ELSE IF q0.v.k = "delete-property" THEN
    LET q1 == PropNameTok(D, q0.st) IN
    IF q1.e # <<>> THEN q1
    ELSE LET q2 == Semicolon(D, q1.st) IN
         Items(D, q2.st, Append(acc, N("delpropitem", TSpan(D, q0.v), <<>>, << N("name", TSpan(D, q1.v), q1.v.v, <<>>) >>)), seen)
  ELSE
  LET omit == IF q0.v.k = "omit-if-no-ref" THEN <<q0.v>> ELSE <<>>
      q1 == IF omit = <<>> THEN q0 ELSE NextTok(D, q0.st)
  IN
  IF q1.e # <<>> THEN q1 ELSE
  LET label == IF q1.v.k = "label" THEN <<q1.v>> ELSE <<>>
      q2 == IF label = <<>> THEN q1
            ELSE NextTok(D, ReportAll(q1.st, CheckLabel(D, q1.v.a, TSpan(D, q1.v), q1.v.v)))
      id == q2.v
  IN
  IF q2.e # <<>> THEN q2
  ELSE IF id.k = "}" /\ label = <<>> /\ omit = <<>> THEN
    LET q3 == Semicolon(D, q2.st) IN
    Ok([items |-> acc, end |-> IF q3.v = <<>> THEN id ELSE q3.v[1]], q3.st)
  ELSE IF id.k # "ident" THEN Err(Expected(TSpan(D, id), <<"ident", "}">>), q2.st)
  ELSE
  LET q3 == PeekTok(D, q2.st)
      nx == q3.v
      nameNode == N("name", TSpan(D, id), id.v, <<>>)
  IN
  IF q3.e # <<>> THEN q3
  ELSE IF nx.k = "{" THEN
    LET r == Payload(D, ReportAll(q3.st, CheckNode(D, id.a, TSpan(D, id), id.v))) IN
    IF r.e # <<>> THEN r
    ELSE Items(D, r.st,
               Append(acc, N("node", Span(D, ItemStart(label, id), r.v.end.b), <<>>,
                 LabelNode(D, label) \o OmitNode(D, omit) \o <<nameNode>> \o r.v.items
                 \o << N("end", TSpan(D, r.v.end), <<>>, <<>>) >>)), TRUE)
  ELSE IF nx.k = "=" THEN
    LET r == Values(D, ReportAll(Drop(q3.st), CheckProp(D, id.a, TSpan(D, id), id.v)), <<>>) IN
    IF r.e # <<>> THEN r
    ELSE LET q4 == Semicolon(D, r.st)
             end == IF q4.v = <<>> THEN nx ELSE q4.v[1]
             sp == Span(D, ItemStart(label, id), end.b)
         IN  Items(D, ReportAll(q4.st, BadOmit(D, omit) \o AfterNode(seen, sp)),
                   Append(acc, N("prop", sp, <<>>,
                     LabelNode(D, label) \o <<nameNode>> \o r.v \o << N("end", TSpan(D, end), <<>>, <<>>) >>)), seen)
  ELSE IF nx.k = ";" THEN
    LET sp == Span(D, ItemStart(label, id), nx.b) IN
    Items(D, ReportAll(Drop(q3.st), CheckProp(D, id.a, TSpan(D, id), id.v) \o AfterNode(seen, sp) \o BadOmit(D, omit)),
          Append(acc, N("prop", sp, <<>>,
            LabelNode(D, label) \o <<nameNode>> \o << N("end", TSpan(D, nx), <<>>, <<>>) >>)), seen)
  ELSE Err(Expected(PtSpan(D, q3.st.lp), <<";", "=", "{", "omit-if-no-ref">>), q3.st)

\* --- files -----------------------------------------------------------------------------
HashInclude == <<35,105,110,99,108,117,100,101>>

MemNum(D, st) ==
  LET q == NextTok(D, st) IN
  IF q.e # <<>> THEN q
  ELSE IF q.v.k = "number" THEN LET r == NumNode(D, q.v, Zero64) IN Ok(r.v, ReportAll(q.st, r.ds))
  ELSE Err(Expected(TSpan(D, q.v), <<"number">>), q.st)

RefOf(D, st) ==
  LET q == NextTok(D, st) IN
  IF q.e # <<>> THEN q
  ELSE IF IsRef(q.v.k) THEN LET r == RefNode(D, q.v) IN Ok(r.v, ReportAll(q.st, r.ds))
  ELSE Err(Expected(TSpan(D, q.v), <<"reflabel">>), q.st)

EndNode(D, t) == N("end", TSpan(D, t), <<>>, <<>>)

Primary(D, t, st) ==                          \* t was just consumed
  IF t.k \in {"dts-v1", "plugin"} THEN Ok(N(t.k, TSpan(D, t), <<>>, <<>>), Semicolon(D, st).st)
  ELSE IF t.k = "memreserve" THEN
    LET a == MemNum(D, st) IN IF a.e # <<>> THEN a ELSE
    LET l == MemNum(D, a.st) IN IF l.e # <<>> THEN l ELSE
    Ok(N("memreserve", NoSpan, <<>>, <<a.v, l.v>>), Semicolon(D, l.st).st)
  ELSE IF t.k = "ident" /\ t.v = HashInclude THEN
    LET q == NextTok(D, st) IN
    IF q.e # <<>> THEN q
    ELSE IF q.v.k = "string" THEN Ok(N("cinclude", NoSpan, q.v.v, <<>>), q.st)
    ELSE Err(Expected(TSpan(D, q.v), <<"string">>), q.st)
  ELSE IF t.k = "include" THEN
    LET q == NextTok(D, st) IN
    IF q.e # <<>> THEN q
    ELSE IF q.v.k # "string" THEN Err(Expected(TSpan(D, q.v), <<"string">>), q.st)
    ELSE LET p == Peek(D, q.st)
             tree == N("include", Span(D, t.a, q.v.b), q.v.v, << N("name", TSpan(D, q.v), q.v.v, <<>>) >>)
         IN  IF Kind(p) # ";" THEN Ok(tree, p)
             ELSE Ok(tree, Report(Drop(p), Diag("ParserError", TSpan(D, p.pk[1]), "Include directive must not end with a semicolon")))
  ELSE IF t.k = "/" THEN
    LET r == Payload(D, st) IN
    IF r.e # <<>> THEN r
    ELSE Ok(N("root", Span(D, t.a, r.v.end.b), <<>>,
              << N("name", TSpan(D, t), <<47>>, <<>>) >> \o r.v.items \o << EndNode(D, r.v.end) >>), r.st)
  ELSE IF IsRef(t.k) THEN
    LET f == RefNode(D, t)
        r == Payload(D, ReportAll(st, f.ds))
    IN  IF r.e # <<>> THEN r
        ELSE Ok(N("refnode", Span(D, t.a, r.v.end.b), <<>>, <<f.v>> \o r.v.items \o << EndNode(D, r.v.end) >>), r.st)
  ELSE IF t.k \in {"delete-node", "omit-if-no-ref"} THEN
    LET r == RefOf(D, st) IN
    IF r.e # <<>> THEN r ELSE Ok(N(t.k, TSpan(D, t), <<>>, <<r.v>>), Semicolon(D, r.st).st)
  ELSE Err(Expected(TSpan(D, t), <<"dts-v1", "memreserve", "include", "delete-node", "omit-if-no-ref", "/", "reflabel">>), st)

RECURSIVE Primaries(_, _, _)
Primaries(D, st, acc) ==
  LET p == Peek(D, st) IN
  IF Kind(p) = "eof" THEN Ok(acc, p)
  ELSE LET r == Primary(D, p.pk[1], Drop(p)) IN
       IF r.e # <<>> THEN r ELSE Primaries(D, r.st, Append(acc, r.v))

\* The result of parsing a document: [ok, tree, ds].  When parsing fails, there is no tree
\* and the last diagnostic is the one that stopped the parser.
Parse(D) ==
  LET r == Primaries(D, Init0, <<>>) IN
  IF r.e # <<>> THEN [ok |-> FALSE, tree |-> N("none", NoSpan, <<>>, <<>>), ds |-> r.st.ds \o r.e]
  ELSE [ok |-> TRUE, tree |-> N("file", NoSpan, <<>>, r.v), ds |-> r.st.ds]
=============================================================================
