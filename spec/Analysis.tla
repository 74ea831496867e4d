------------------------------ MODULE Analysis ------------------------------
(* What a syntax tree means: which labels and nodes it defines, which         *)
(* references can be resolved, which structural rules it breaks.              *)
EXTENDS Parser, Paths

EmptyFn == [x \in {} |-> x]
Put(f, k, v) == (k :> v) @@ f

\* --- severities -----------------------------------------------------------------
Warnings == {"NameTooLong", "NonStringInCompatible", "DuplicateDirective"}
Severity(k) == IF k \in Warnings THEN "warning" ELSE "error"

\* what other files and the cursor see of a file:
\* labels: label -> [t: "n"/"p", nm: name, s: span of the name, f: file]
\* lpaths: label -> path of the labeled node
\* flat:   path of a node -> [t, nm, s, f]
EmptyCtx == [labels |-> EmptyFn, lpaths |-> EmptyFn, flat |-> EmptyFn]
Merge(new, old) == [labels |-> new.labels @@ old.labels,
                    lpaths |-> new.lpaths @@ old.lpaths,
                    flat   |-> new.flat @@ old.flat]

\* --- the parts of a tree node -------------------------------------------------------
Kids(n, k) == SelectSeq(n.c, LAMBDA x : x.k = k)
NameOf(n) == Kids(n, "name")[1]
Values_(n) == SelectSeq(n.c, LAMBDA x : x.k \in {"str", "cells", "bytestrings", "reflabel", "refpath"})

Target(t, n, f) == [t |-> t, nm |-> NamePart(NameOf(n).v), s |-> NameOf(n).s, f |-> f]

\* analysis state of one file f of type ft
AInit(f, ft) == [f |-> f, ft |-> ft, ctx |-> EmptyCtx, refs |-> <<>>, ds |-> <<>>,
                 plugin |-> ft = "overlay", nonInc |-> FALSE, hdr |-> FALSE]
Add(a, d) == [a EXCEPT !.ds = Append(@, d)]
AddIf(a, b, d) == IF b THEN Add(a, d) ELSE a

\* --- references ------------------------------------------------------------------------
\* Only for complete trees (.dts files that are no plugins) it is known that a reference cannot be resolved.
Unresolved(a, s) == AddIf(a, a.ft = "dts" /\ ~a.plugin, Diag("UnresolvedReference", s, "Reference cannot be resolved"))

RefsOfValue(v) ==
  IF IsRef(v.k) THEN <<v>> ELSE IF v.k = "cells" THEN SelectSeq(v.c, LAMBDA x : IsRef(x.k)) ELSE <<>>

CompatibleName == <<99,111,109,112,97,116,105,98,108,101>>

\* --- properties and nodes -----------------------------------------------------------------
AProperty(a, p) ==
  LET vs == Values_(p)
      l == Kids(p, "label")
      a1 == IF l = <<>> THEN a
            ELSE [a EXCEPT !.ctx.labels = Put(@, l[1].v, Target("p", p, a.f))]
      a2 == [a1 EXCEPT !.refs = FoldLeft(LAMBDA acc, v : acc \o RefsOfValue(v), @, vs)]
  IN  IF NameOf(p).v # CompatibleName THEN a2
      ELSE FoldLeft(LAMBDA acc, v : AddIf(acc, v.k # "str",
             Diag("NonStringInCompatible", v.s, "compatible property should only contain strings")), a2, vs)

RECURSIVE ANode(_, _, _), APayload(_, _, _)
APayload(a, c, path) ==
  FoldLeft(LAMBDA acc, x :
      IF x.k = "prop" THEN AProperty(acc, x)
      ELSE IF x.k = "node" THEN ANode(acc, x, path \o <<SLASH>> \o NameOf(x).v)
      ELSE acc, a, c)
ANode(a, n, path) ==
  LET l == Kids(n, "label")
      t == Target("n", n, a.f)
      a1 == IF l = <<>> THEN a
            ELSE [a EXCEPT !.ctx.labels = Put(@, l[1].v, t), !.ctx.lpaths = Put(@, l[1].v, path)]
  IN  APayload([a1 EXCEPT !.ctx.flat = Put(@, path, t)], n.c, path)

\* a reference that is used as a statement: [a, path]
ResolveNow(a, r) ==
  IF r.k = "reflabel"
  THEN IF r.v \in DOMAIN a.ctx.lpaths THEN [a |-> a, path |-> a.ctx.lpaths[r.v]]
       ELSE [a |-> Unresolved(a, r.s), path |-> <<>>]
  ELSE [a |-> IF r.v \in DOMAIN a.ctx.flat THEN a ELSE Unresolved(a, r.s), path |-> r.v]

\* --- one statement at the top level (except for includes) --------------------------------------
AHeader(a, n) ==
  LET b == IF a.hdr THEN Add(a, Diag("DuplicateDirective", n.s, "Duplicate dts-v1 version header"))
           ELSE AddIf(a, a.nonInc, Diag("MisplacedDtsHeader", n.s, "dts-v1 header must be placed on top of the file"))
  IN  [b EXCEPT !.hdr = TRUE]

AStatement(a, n) ==
  IF n.k = "dts-v1" THEN AHeader(a, n)
  ELSE IF n.k \in {"memreserve", "omit-if-no-ref"} THEN [a EXCEPT !.nonInc = TRUE]
  ELSE IF n.k = "plugin" THEN [a EXCEPT !.nonInc = TRUE, !.plugin = TRUE]
  ELSE IF n.k = "delete-node" THEN [ResolveNow(a, n.c[1]).a EXCEPT !.nonInc = TRUE]
  ELSE IF n.k = "root" THEN [ANode(a, n, <<>>) EXCEPT !.nonInc = TRUE]
  ELSE IF n.k = "refnode" THEN
    LET r == ResolveNow(a, n.c[1])
    IN  [APayload(r.a, n.c, r.path) EXCEPT !.nonInc = TRUE]
  ELSE a                                       \* C-style includes are ignored

\* --- the end of the file --------------------------------------------------------------------------
Resolvable(a, r) == IF r.k = "reflabel" THEN r.v \in DOMAIN a.ctx.labels ELSE r.v \in DOMAIN a.ctx.flat
AFinish(a) ==
  LET b == AddIf(a, ~a.hdr /\ a.ft = "dts",
             Diag("NonDtsV1", NoSpan, "Files without the '/dts-v1/' Header are not supported"))
  IN  FoldLeft(LAMBDA acc, r : IF Resolvable(acc, r) THEN acc ELSE Unresolved(acc, r.s), b, b.refs)

\* --- the item at a cursor position ------------------------------------------------------------------
\* <<>> or <<item>>; an item is a label, reference or include tree
At(n, l, c) == SpanContains(n.s, l, c)
LabelAt(n, l, c) == SelectSeq(Kids(n, "label"), LAMBDA x : At(x, l, c))
FirstOf(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
RECURSIVE ItemsAt(_, _, _)
ItemsAt(n, l, c) ==                            \* all candidates, in source order
  IF n.k = "include" THEN IF At(n, l, c) THEN <<n>> ELSE <<>>
  ELSE IF n.k \in {"delete-node", "omit-if-no-ref"} THEN SelectSeq(n.c, LAMBDA x : At(x, l, c))
  ELSE IF n.k = "prop" THEN
    LabelAt(n, l, c) \o FoldLeft(LAMBDA acc, v : acc \o SelectSeq(RefsOfValue(v), LAMBDA x : At(x, l, c)), <<>>, Values_(n))
  ELSE IF n.k \in {"root", "node", "refnode", "file"} THEN
    LabelAt(n, l, c)
    \o (IF n.k = "refnode" /\ At(n.c[1], l, c) THEN <<n.c[1]>> ELSE <<>>)
    \o FoldLeft(LAMBDA acc, x : acc \o ItemsAt(x, l, c), <<>>, n.c)
  ELSE <<>>
ItemAt(tree, l, c) == FirstOf(ItemsAt(tree, l, c))

\* the node a reference stands for: <<>> or <<target>>
TargetOf(ctx, r) ==
  IF r.k = "reflabel"
  THEN IF r.v \in DOMAIN ctx.labels /\ ctx.labels[r.v].t = "n" THEN <<ctx.labels[r.v]>> ELSE <<>>
  ELSE IF r.v \in DOMAIN ctx.flat THEN <<ctx.flat[r.v]>> ELSE <<>>
=============================================================================
