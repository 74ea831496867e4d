------------------------------ MODULE MC_Docs ------------------------------
(* All small documents: a context and a sequence of tokens typed into it, one *)
(* token per step.  TLC visits every document of at most MaxLen tokens and     *)
(* checks on each of them                                                      *)
(*   - that the two descriptions of the language agree: the parser finds       *)
(*     nothing wrong exactly when the grammar accepts the text,                *)
(*   - that the lexer accounts for every byte, that positions are in the text  *)
(*     and that the tree is well nested.                                       *)
(* The file IOEnv.LENS says how many tokens are typed into each context.        *)
(* With EMIT = "1" every document is printed, to be replayed into the          *)
(* implementation; with LEMMAS = "1" the lemmas are checked.                    *)
EXTENDS Grammar, Json, IOUtils

Lens == ndJsonDeserialize(IOEnv.LENS)[1]
Contexts == DOMAIN Lens

VARIABLES ctx, toks, closed
vars == <<ctx, toks, closed>>

\* [pre, post, sep: separators, a: alphabet]
Open == "/dts-v1/;\n"
Conf == [
  top   |-> [pre |-> Open, post |-> "", a |-> <<"/", "{", "}", ";", "&a", "/dts-v1/", "/plugin/", "/memreserve/", "1", "/include/",
                                              "\"s\"", "/delete-node/", "/omit-if-no-ref/", "a", "&{/x}", "#include">>],
  file  |-> [pre |-> "", post |-> "", a |-> <<"/dts-v1/", ";", "/ { };", "&a", "{ };", "/plugin/", "/memreserve/ 1 2;", "/include/ \"s\"",
                                              "/delete-node/ &a;", "/ { a: b { }; };">>],
  item  |-> [pre |-> Open \o "/ {\n", post |-> "};", a |-> <<"a", "b:", ";", "=", "{", "}", "/delete-node/", "/delete-property/", "/omit-if-no-ref/", "1",
                                              "\"s\"", "&a", "n@1">>],
  items |-> [pre |-> Open \o "/ {\n", post |-> "};", a |-> <<"a = <1>;", "b;", "b: c { };", "c { p; };", "/delete-node/ c;", "/delete-property/ b;",
                                              "/omit-if-no-ref/", "l:", "compatible = \"s\", <1>;", "d", "= <&b>;", "}; &b {", "}; &{/c} {">>],
  value |-> [pre |-> Open \o "/ { p =\n", post |-> "; };", a |-> <<"<", ">", "[", "]", "\"s\"", ",", "1", "ab", "&a", "x:", "/bits/", "(", ")", ";">>],
  cells |-> [pre |-> Open \o "/ { p = <\n", post |-> ">; };", a |-> <<"1", "0x", "08", "4294967296", "&a", "&{/}", "x:", "(", ")", "x", ">", "<", ",", "&">>],
  bytes |-> [pre |-> Open \o "/ { p = [\n", post |-> "]; };", a |-> <<"00", "ab", "abc", "0g", "x:", "]", "[", "&a", "_a", "A1", "\"s\"">>],
  chars |-> [pre |-> "", post |-> "", a |-> <<"/", "*", "\"", "\\", "\n", "&", "{", "}", "a", ":", "#", ";", "0", " ">>],
  name  |-> [pre |-> Open \o "/ {", post |-> ";};", a |-> <<"a", "@", "1", "#", "?", "_", "-", "=", "{}", "!">>],
  refs  |-> [pre |-> Open, post |-> "", a |-> <<"/ { x: a { }; };", "/ { b { y: c { }; }; };", "&x { c { }; };", "&{/a} { p = <&y>; };", "/ { p = <&x>; };",
                                              "/ { p = &{/a/c}, &{/b/c}; };", "/delete-node/ &y;", "/omit-if-no-ref/ &x;", "&{/b} { x: c { }; };", "/ { x: p; };",
                                              "/plugin/;", "/ { x: b; };", "&y { x: a { }; p = &x; };", "/delete-node/ &{/b/c};">>],
  lit   |-> [pre |-> Open \o "/ { p = <", post |-> ">; };", a |-> <<"0", "1", "4", "8", "9", "a", "f", "x", "z", "X">>],
  str   |-> [pre |-> Open \o "/ { p = \"", post |-> "\"; };", a |-> <<"a", "\\", "\"", "/*", "\n", "é", "//", "n">>],
  layout |-> [pre |-> Open, post |-> "", a |-> <<"/* c */", "// c\n", " ", "\n", "\t", "/", "/ {", "a", "= <1>", ";", "}", "/**/", "*/", "// \\\n", "\r\n">>],
  path  |-> [pre |-> Open \o "&{", post |-> "} { };", a |-> <<"/", "a", "@", "1", "?", "_", "é", "\n", "&">>]
]
Sep(c) == IF c \in {"chars", "name", "path", "lit", "str", "layout"} THEN <<"", "">> ELSE <<" ", "\n ">>

RECURSIVE Joined(_, _)
Joined(c, ts) == IF ts = <<>> THEN ""
                 ELSE Joined(c, Front(ts)) \o Conf[c].a[Last(ts)] \o Sep(c)[(Len(ts) % 2) + 1]
Text == Conf[ctx].pre \o Joined(ctx, toks) \o (IF closed THEN Conf[ctx].post ELSE "")

Init == ctx \in Contexts /\ toks = <<>> /\ closed = FALSE
Type == ~closed /\ Len(toks) < Lens[ctx] /\ \E j \in DOMAIN Conf[ctx].a : toks' = Append(toks, j) /\ UNCHANGED <<ctx, closed>>
Close == ~closed /\ Conf[ctx].post # "" /\ closed' = TRUE /\ UNCHANGED <<ctx, toks>>
Next == Type \/ Close
Spec == Init /\ [][Next]_vars

\* --- lemmas ------------------------------------------------------------------
Agree(D, p) == WellFormed(D) <=> (p.ok /\ \A j \in DOMAIN p.ds : p.ds[j].k \notin SyntaxKinds)

LexerTotal(D) ==
  LET ts == Tokens(D) IN
  /\ \A j \in DOMAIN ts : 1 <= ts[j].a /\ ts[j].a < ts[j].b /\ ts[j].b <= D.n + 1
  /\ \A j \in 1..(Len(ts) - 1) : ts[j].b <= ts[j + 1].a

Ordered(s) == PosLeq(s[1], s[2], s[3], s[4])
Within(D, s) == Ordered(s) /\ PosLeq(s[3], s[4], D.P[D.n + 1][1], D.P[D.n + 1][2] + 2)

RECURSIVE Nested(_)
Nested(n) ==
  /\ Ordered(n.s)
  /\ \A j \in DOMAIN n.c : Nested(n.c[j])
  /\ (n.k \in {"root", "node", "prop", "cells", "bytestrings", "refnode"}) =>
       \A j \in DOMAIN n.c : n.c[j].k = "expr" \/ n.c[j].k = "omitmark"
          \/ (PosLeq(n.s[1], n.s[2], n.c[j].s[1], n.c[j].s[2]) /\ (n.c[j].k = "end" \/ PosLeq(n.c[j].s[3], n.c[j].s[4], n.s[3], n.s[4])))

Lemmas ==
  LET D == Doc(StrBytes(Text))
      p == Parse(D)
  IN  /\ Agree(D, p)
      /\ LexerTotal(D)
      /\ \A j \in DOMAIN p.ds : Within(D, p.ds[j].s)
      /\ WellFormed(D) => Nested(p.tree)
Emit == PrintT("@" \o ToJson([c |-> ctx, t |-> Text]))
Visit == (IF IOEnv.LEMMAS = "1" THEN Lemmas ELSE TRUE) /\ (IF IOEnv.EMIT = "1" THEN Emit ELSE TRUE)
=============================================================================
