------------------------------- MODULE Lexer -------------------------------
(* The tokens of a device-tree source.                                      *)
(*                                                                          *)
(* What a character starts depends on the context: where a node or property *)
(* name is expected (at the beginning, after ';' and after '{'), names may   *)
(* start with  , . _ + - # ?  ; after '=' they may not.  The lexer therefore *)
(* has the state  (i, ex):  the index of the next byte and whether a name is *)
(* expected.  Tokens are lexed on demand, since the parser's recovery from a *)
(* missing ';' moves the lexer back to the "name expected" state.            *)
EXTENDS Bytes

Tok(k, a, b, v) == [k |-> k, a |-> a, b |-> b, v |-> v]

\* the directive names
DirTable == <<
  << <<100,116,115,45,118,49>>, "dts-v1" >>,
  << <<112,108,117,103,105,110>>, "plugin" >>,
  << <<109,101,109,114,101,115,101,114,118,101>>, "memreserve" >>,
  << <<98,105,116,115>>, "bits" >>,
  << <<100,101,108,101,116,101,45,112,114,111,112,101,114,116,121>>, "delete-property" >>,
  << <<100,101,108,101,116,101,45,110,111,100,101>>, "delete-node" >>,
  << <<111,109,105,116,45,105,102,45,110,111,45,114,101,102>>, "omit-if-no-ref" >>,
  << <<105,110,99,108,117,100,101>>, "include" >> >>
DirNames == { DirTable[j][1] : j \in DOMAIN DirTable }
DirKind(v) == IF v \in DirNames
              THEN DirTable[CHOOSE j \in DOMAIN DirTable : DirTable[j][1] = v][2]
              ELSE "directive"
DirKinds == { DirTable[j][2] : j \in DOMAIN DirTable } \cup {"directive"}

Punct == (59 :> ";") @@ (61 :> "=") @@ (91 :> "[") @@ (93 :> "]") @@ (40 :> "(") @@ (41 :> ")")
      @@ (123 :> "{") @@ (125 :> "}") @@ (60 :> "<") @@ (62 :> ">") @@ (44 :> ",")

\* The contents of a string whose first byte (after the quote) is at i:
\* <<value, index after the closing quote>>; the index is 0 when the string is not
\* terminated.  The escapes are those of C, except for \x41 and \101, which stand for
\* their first character (a recorded finding).
Escapes == (97 :> 7) @@ (98 :> 8) @@ (116 :> 9) @@ (110 :> 10) @@ (118 :> 11) @@ (102 :> 12) @@ (114 :> 13)
Unescape(c) == IF c \in DOMAIN Escapes THEN Escapes[c] ELSE c
RECURSIVE StrScan(_, _, _, _, _)
StrScan(T, n, i, esc, acc) ==
  IF i > n THEN << <<>>, 0 >>
  ELSE LET c == T[i] IN
       IF esc THEN StrScan(T, n, i + 1, FALSE, Append(acc, Unescape(c)))
       ELSE IF c = 92 THEN StrScan(T, n, i + 1, TRUE, acc)
       ELSE IF c = 34 THEN <<acc, i + 1>>
       ELSE StrScan(T, n, i + 1, FALSE, Append(acc, c))

RECURSIVE CommentEnd(_, _, _)        \* index after "*/", or 0
CommentEnd(T, n, i) ==
  IF i >= n THEN 0 ELSE IF T[i] = 42 /\ T[i + 1] = 47 THEN i + 2 ELSE CommentEnd(T, n, i + 1)

NameStart == Alpha \cup {44, 46, 95, 43, 45, 35, 63}
IdentStart == Alpha \cup {95}

IdentTok(T, n, s) ==
  LET e == ScanWhile(T, n, s, PropChars) IN
  IF e <= n /\ T[e] = 58 THEN Tok("label", s, e + 1, SubSeq(T, s, e - 1))
  ELSE IF e <= n /\ T[e] = 64
       THEN LET e2 == ScanWhile(T, n, e + 1, PropChars) IN Tok("ident", s, e2, SubSeq(T, s, e2 - 1))
       ELSE Tok("ident", s, e, SubSeq(T, s, e - 1))

RefTok(T, n, s) ==                            \* s is the index of '&'
  IF s + 1 > n THEN Tok("unknown", s, s + 1, <<>>)
  ELSE IF T[s + 1] = 123
       THEN LET e == ScanUntil(T, n, s + 2, 125) IN
            IF e > n THEN Tok("unknown", s, n + 1, <<>>)
            ELSE Tok("refpath", s, e + 1, SubSeq(T, s + 2, e - 1))
  ELSE IF T[s + 1] \in LabelStart
       THEN LET e == ScanWhile(T, n, s + 1, LabelChars) IN Tok("reflabel", s, e, SubSeq(T, s + 1, e - 1))
  ELSE Tok("reflabel", s, s + 1, <<>>)

SlashTok(T, n, s) ==
  IF s + 1 > n THEN Tok("/", s, s + 1, <<>>)
  ELSE LET c == T[s + 1] IN
       IF c = 47 THEN Tok("comment", s, ScanUntil(T, n, s + 2, NL), <<>>)
       ELSE IF c = 42 THEN LET e == CommentEnd(T, n, s + 2) IN
              IF e = 0 THEN Tok("unknown", s, n + 1, <<>>) ELSE Tok("comment", s, e, <<>>)
       ELSE IF c \in Alpha
            THEN LET e == ScanUntil(T, n, s + 1, 47)
                     v == SubSeq(T, s + 1, e - 1)
                 IN  Tok(DirKind(v), s, IF e > n THEN e ELSE e + 1, v)
       ELSE Tok("/", s, s + 1, <<>>)

\* the token (possibly a comment) whose first byte is at s
TokAt(T, n, s, ex) ==
  LET c == T[s] IN
  IF c \in IdentStart \/ (ex /\ c \in NameStart) THEN IdentTok(T, n, s)
  ELSE IF c \in Digit THEN LET e == ScanWhile(T, n, s, AlNum) IN Tok("number", s, e, SubSeq(T, s, e - 1))
  ELSE IF c = 38 THEN RefTok(T, n, s)
  ELSE IF c = 34 THEN LET r == StrScan(T, n, s + 1, FALSE, <<>>) IN
         IF r[2] = 0 THEN Tok("unknown", s, n + 1, <<>>) ELSE Tok("string", s, r[2], r[1])
  ELSE IF c = 47 THEN SlashTok(T, n, s)
  ELSE IF c \in DOMAIN Punct THEN Tok(Punct[c], s, s + 1, <<>>)
  ELSE LET e == ScanWhile(T, n, s + 1, Cont) IN Tok("unknown", s, e, <<>>)

ModeAfter(k, ex) == IF k \in {";", "{"} THEN TRUE ELSE IF k = "=" THEN FALSE ELSE ex

\* The next token that is no comment: [t, i, ex, lp].  lp is the index of the byte
\* after the preceding token or comment.
RECURSIVE Lex(_, _, _)
Lex(D, i, ex) ==
  LET s == ScanWhile(D.T, D.n, i, WS) IN
  IF s > D.n THEN [t |-> Tok("eof", D.n + 1, D.n + 1, <<>>), i |-> D.n + 1, ex |-> ex, lp |-> i]
  ELSE LET t == TokAt(D.T, D.n, s, ex) IN
       IF t.k = "comment" THEN Lex(D, t.b, ex)
       ELSE [t |-> t, i |-> t.b, ex |-> ModeAfter(t.k, ex), lp |-> i]

\* all tokens of a document (without the parser's feedback)
RECURSIVE TokensFrom(_, _, _)
TokensFrom(D, i, ex) ==
  LET r == Lex(D, i, ex) IN
  IF r.t.k = "eof" THEN <<>> ELSE <<r.t>> \o TokensFrom(D, r.i, r.ex)
Tokens(D) == TokensFrom(D, 1, TRUE)
=============================================================================
