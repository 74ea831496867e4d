------------------------------ MODULE Grammar ------------------------------
(* What a well-formed device-tree source is, independent of how it is parsed *)
(* and of any error handling:  a predicate on the sequence of tokens.        *)
(*                                                                           *)
(*   file      ::= primary*                                                  *)
(*   primary   ::= /dts-v1/ ;  |  /plugin/ ;  |  /memreserve/ NUM NUM ;       *)
(*              |  /include/ STRING  |  #include STRING                       *)
(*              |  "/" payload ;  |  REF payload ;                            *)
(*              |  /delete-node/ REF ;  |  /omit-if-no-ref/ REF ;             *)
(*   payload   ::= { item* }                                                  *)
(*   item      ::= /delete-node/ NAME ;  |  /delete-property/ NAME ;          *)
(*              |  [/omit-if-no-ref/] [LABEL] NAME payload ;                  *)
(*              |  [LABEL] NAME ;  |  [LABEL] NAME = values ;                 *)
(*   values    ::= lvalue (, lvalue)*         lvalue ::= [LABEL] value [LABEL] *)
(*   value     ::= [/bits/ NUM] ( STRING | REF | < ([LABEL] cell)* [LABEL] >   *)
(*              |                 [ ([LABEL] BYTES)* [LABEL] ] )               *)
(*   cell      ::= NUM | REF | ( ... balanced ... )                            *)
(*                                                                            *)
(* plus: properties come before nodes; names, paths and literals are valid.   *)
(* The predicates take a token sequence ts and an index and return the index  *)
(* after what they recognised, or 0.                                          *)
EXTENDS Parser

K(ts, i) == IF i \in DOMAIN ts THEN ts[i].k ELSE "eof"
Lit(ts, i, k) == IF i # 0 /\ K(ts, i) = k THEN i + 1 ELSE 0

\* --- words ----------------------------------------------------------------
AllIn(s, S) == \A j \in DOMAIN s : s[j] \in S
GoodLabel(s) == s # <<>> /\ AllIn(s, LabelChars) /\ s[1] \in LabelStart
OptLabel(ts, i) == IF K(ts, i) # "label" THEN i ELSE IF GoodLabel(ts[i].v) THEN i + 1 ELSE 0
GoodNodeName(s) ==
  \/ s = SymbolsName
  \/ /\ NamePart(s) # <<>> /\ AllIn(NamePart(s), NodeChars) /\ NamePart(s)[1] \in Alpha
     /\ HasUnit(s) => UnitPart(s) # <<>> /\ AllIn(UnitPart(s), NodeChars)
GoodPropName(s) == s # <<>> /\ AllIn(s, PropChars)
GoodPath(s) == s # <<>> /\ \A el \in Range(SplitBy(s, 47)) : el = <<>> \/ GoodNodeName(el)
\* at most 31 characters
ShortNode(s) == s = SymbolsName \/ (Len(NamePart(s)) <= 31 /\ Len(UnitPart(s)) <= 31)
ShortWord(t) ==
  CASE t.k \in {"label", "reflabel"} -> Len(t.v) <= 31
    [] t.k = "refpath" -> \A el \in Range(SplitBy(t.v, 47)) : ShortNode(el)
    [] OTHER -> TRUE

HexDigits == Digit \cup 97..102 \cup 65..70
GoodBytes(s) == Len(s) % 2 = 0 /\ AllIn(s, HexDigits)
\* a number literal that fits into n bits, n = 32 or 64
Strip0(s) == LET f == FirstNotIn(s, {48}) IN IF f = 0 THEN <<>> ELSE SubSeq(s, f, Len(s))
DecMax(n) == IF n = 32 THEN <<52,50,57,52,57,54,55,50,57,53>>
             ELSE <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, j) == IF j > Len(a) THEN TRUE ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE LexLeq(a, b, j + 1)
GoodNumber(s, n) ==
  IF Len(s) >= 2 /\ s[1] = 48 /\ s[2] = 120 THEN
    LET h == SubSeq(s, 3, Len(s)) IN h # <<>> /\ AllIn(h, HexDigits) /\ Len(Strip0(h)) * 4 <= n
  ELSE IF Len(s) >= 2 /\ s[1] = 48 THEN
    LET o == Strip0(s)
        top == IF n = 32 THEN 51 ELSE 49            \* the largest first digit of a number of full length
        len == IF n = 32 THEN 11 ELSE 22
    IN  AllIn(s, 48..55) /\ (Len(o) < len \/ (Len(o) = len /\ o[1] <= top))
  ELSE AllIn(s, Digit) /\ (Len(s) < Len(DecMax(n)) \/ (Len(s) = Len(DecMax(n)) /\ LexLeq(s, DecMax(n), 1)))

GoodRef(t) == IF t.k = "reflabel" THEN GoodLabel(t.v) ELSE t.k = "refpath" /\ GoodPath(t.v)

\* --- values ------------------------------------------------------------------
RECURSIVE Balanced(_, _, _)
Balanced(ts, i, depth) ==
  LET k == K(ts, i) IN
  IF k = "eof" THEN 0
  ELSE IF k = "(" THEN Balanced(ts, i + 1, depth + 1)
  ELSE IF k = ")" THEN IF depth = 1 THEN i + 1 ELSE Balanced(ts, i + 1, depth - 1)
  ELSE Balanced(ts, i + 1, depth)

RECURSIVE GCells(_, _), GBytes(_, _), GValues(_, _)
GCells(ts, i0) ==
  LET i == OptLabel(ts, i0)
      k == K(ts, i)
  IN  IF k = ">" THEN i + 1
      ELSE IF k = "number" THEN IF GoodNumber(ts[i].v, 32) THEN GCells(ts, i + 1) ELSE 0
      ELSE IF IsRef(k) THEN IF GoodRef(ts[i]) THEN GCells(ts, i + 1) ELSE 0
      ELSE IF k = "(" THEN LET j == Balanced(ts, i + 1, 1) IN IF j = 0 THEN 0 ELSE GCells(ts, j)
      ELSE 0
GBytes(ts, i0) ==
  LET i == OptLabel(ts, i0)
      k == K(ts, i)
  IN  IF k = "]" THEN i + 1
      ELSE IF k \in {"number", "ident"} THEN IF GoodBytes(ts[i].v) THEN GBytes(ts, i + 1) ELSE 0
      ELSE 0
GValue(ts, i0) ==
  LET i == IF K(ts, i0) # "bits" THEN i0 ELSE IF K(ts, i0 + 1) = "number" /\ GoodNumber(ts[i0 + 1].v, 32) THEN i0 + 2 ELSE 0 IN
  IF i = 0 THEN 0
  ELSE LET k == K(ts, i) IN
       IF k = "string" THEN i + 1
       ELSE IF IsRef(k) THEN IF GoodRef(ts[i]) THEN i + 1 ELSE 0
       ELSE IF k = "<" THEN GCells(ts, i + 1)
       ELSE IF k = "[" THEN GBytes(ts, i + 1)
       ELSE 0
GValues(ts, i) ==
  LET j == GValue(ts, OptLabel(ts, i)) IN
  IF j = 0 THEN 0
  ELSE LET j2 == OptLabel(ts, j) IN IF K(ts, j2) = "," THEN GValues(ts, j2 + 1) ELSE j2

\* --- nodes -------------------------------------------------------------------
RECURSIVE GItems(_, _, _)
GPayload(ts, i) == LET j == Lit(ts, i, "{") IN IF j = 0 THEN 0 ELSE GItems(ts, j, FALSE)
GItems(ts, i, seen) ==
  LET k == K(ts, i) IN
  IF k = "}" THEN Lit(ts, i + 1, ";")
  ELSE IF k = "delete-node" THEN
    IF K(ts, i + 1) = "ident" /\ GoodNodeName(ts[i + 1].v) /\ K(ts, i + 2) = ";" THEN GItems(ts, i + 3, seen) ELSE 0
  ELSE IF k = "delete-property" THEN
    IF K(ts, i + 1) = "ident" /\ GoodPropName(ts[i + 1].v) /\ K(ts, i + 2) = ";" THEN GItems(ts, i + 3, seen) ELSE 0
  ELSE
  LET omit == k = "omit-if-no-ref"
      i1 == IF omit THEN i + 1 ELSE i
      i2 == OptLabel(ts, i1)
  IN
  IF K(ts, i2) # "ident" THEN 0
  ELSE LET nm == ts[i2].v
           k2 == K(ts, i2 + 1)
       IN  IF k2 = "{" THEN
             IF ~GoodNodeName(nm) THEN 0
             ELSE LET j == GPayload(ts, i2 + 1) IN IF j = 0 THEN 0 ELSE GItems(ts, j, TRUE)
           ELSE IF omit \/ seen \/ ~GoodPropName(nm) THEN 0
           ELSE IF k2 = ";" THEN GItems(ts, i2 + 2, seen)
           ELSE IF k2 = "=" THEN
             LET j == GValues(ts, i2 + 2) IN IF j = 0 THEN 0
             ELSE IF K(ts, j) = ";" THEN GItems(ts, j + 1, seen) ELSE 0
           ELSE 0

RECURSIVE GFile(_, _)
GFile(ts, i) ==
  LET k == K(ts, i)
      then(j) == IF j = 0 THEN FALSE ELSE GFile(ts, j)
  IN
  IF k = "eof" THEN TRUE
  ELSE IF k \in {"dts-v1", "plugin"} THEN then(Lit(ts, i + 1, ";"))
  ELSE IF k = "memreserve" THEN
    K(ts, i + 1) = "number" /\ K(ts, i + 2) = "number"
    /\ GoodNumber(ts[i + 1].v, 64) /\ GoodNumber(ts[i + 2].v, 64) /\ then(Lit(ts, i + 3, ";"))
  ELSE IF k = "include" THEN K(ts, i + 1) = "string" /\ then(i + 2)
  ELSE IF k = "ident" THEN ts[i].v = HashInclude /\ K(ts, i + 1) = "string" /\ then(i + 2)
  ELSE IF k = "/" THEN then(GPayload(ts, i + 1))
  ELSE IF IsRef(k) THEN GoodRef(ts[i]) /\ then(GPayload(ts, i + 1))
  ELSE IF k \in {"delete-node", "omit-if-no-ref"} THEN
    IsRef(K(ts, i + 1)) /\ GoodRef(ts[i + 1]) /\ then(Lit(ts, i + 2, ";"))
  ELSE FALSE

WellFormed(D) == GFile(Tokens(D), 1)

\* the diagnostics that say that a text is not well-formed (all are errors)
SyntaxKinds == {"UnexpectedEOF", "Expected", "ExpectedName", "OddNumberOfBytestringElements", "IntError", "IllegalChar",
                "IllegalStart", "PathCannotBeEmpty", "PropertyAfterNode", "UnbalancedParentheses", "IncorrectDirective", "ParserError"}
=============================================================================
