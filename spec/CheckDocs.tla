------------------------------ MODULE CheckDocs ------------------------------
(* Checks recorded observations of single documents against the              *)
(* specification.  Every line of the trace is one step: a document was added  *)
(* to an empty project and everything was observed:                           *)
(*   t: text  f: path  g: group  p: did it panic                               *)
(*   ok, tree: the syntax tree     ds: the diagnostics    q: cursor queries    *)
(* The behaviours are the traces, cut into chunks that are checked in parallel.*)
(* IOEnv.PROP selects the property that is judged; "ALL" judges everything.    *)
EXTENDS Project, Grammar, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Chunks == 32
VARIABLES l, hi                       \* the next line; the end of this chunk
vars == <<l, hi>>

W0 == [fs |-> EmptyFn, cwd |-> <<>>]

\* --- what is expected -------------------------------------------------------
Exp(r) == LET p == ParseText(r.t)
              rec == [Dummy EXCEPT !.ok = p.ok, !.tree = p.tree, !.pds = p.ds, !.ft = FileTypeOf(r.f)]
              a == IF p.ok THEN AnalyzeFile(W0, (r.f :> rec), r.f, {}).a ELSE AInit(r.f, rec.ft)
          IN [ok |-> p.ok, tree |-> p.tree, ds |-> p.ds \o a.ds, pds |-> p.ds, ctx |-> a.ctx]

\* --- views of diagnostics and trees --------------------------------------------
RECURSIVE Strip(_)
Strip(n) == [k |-> n.k, v |-> n.v, c |-> [j \in DOMAIN n.c |-> Strip(n.c[j])]]

Kinds(ds) == { ds[j].k : j \in DOMAIN ds }
\* bags of diagnostics, seen through V
KMS(d) == [k |-> d.k, s |-> d.s, m |-> d.m]
KS(d) == [k |-> d.k, s |-> d.s]
KM(d) == [k |-> d.k, m |-> d.m]
Bag(ds, V(_)) == LET X == { V(ds[j]) : j \in DOMAIN ds }
                 IN [x \in X |-> Cardinality({ j \in DOMAIN ds : V(ds[j]) = x })]
OfKinds(ds, ks) == SelectSeq(ds, LAMBDA d : d.k \in ks)

NamingKinds == {"IllegalChar", "NameTooLong", "ExpectedName", "IllegalStart", "PathCannotBeEmpty"}
LiteralKinds == {"IntError", "OddNumberOfBytestringElements"}
SyntaxErrorKinds == {"Expected", "UnexpectedEOF"}

\* the literals of a tree, in order
RECURSIVE Literals(_)
Literals(n) == (IF n.k \in {"num", "bytes", "str"} THEN << <<n.k, n.v>> >> ELSE <<>>)
               \o FoldLeft(LAMBDA acc, x : acc \o Literals(x), <<>>, n.c)

QueryOk(e, q) ==
  LET it == ItemAt(e.tree, q.l, q.c) IN
  IF it = <<>> THEN q.k = "none"
  ELSE LET n == it[1] IN
       /\ q.k = n.k /\ q.v = n.v
       /\ IF ~IsRef(n.k) THEN TRUE
          ELSE LET t == TargetOf(e.ctx, n) IN
               IF t = <<>> THEN q.t = <<>> /\ q.d = <<>>
               ELSE /\ Len(q.t) = 1 /\ q.t[1].s = t[1].s /\ q.t[1].f = t[1].f
                    /\ Len(q.d) = 1 /\ q.d[1] = <<78,111,100,101,32>> \o t[1].nm

SameTokens(a, b) ==
  LET ta == Tokens(Doc(a.t)) tb == Tokens(Doc(b.t)) IN
  Len(ta) = Len(tb) /\ \A j \in DOMAIN ta : ta[j].k = tb[j].k /\ ta[j].v = tb[j].v

\* --- the properties -----------------------------------------------------------------
Fail(r, why) == PrintT("@" \o ToJson([id |-> r.id, why |-> why])) /\ FALSE
Why(what, got, exp) == [what |-> what, got |-> got, expected |-> exp]
SameBag(r, what, got, exp, V(_)) == LET a == Bag(got, V) b == Bag(exp, V) IN
  a = b \/ Fail(r, [what |-> what, unexpected |-> DOMAIN a \ DOMAIN b, missing |-> DOMAIN b \ DOMAIN a])
OkIs(r, e) == (r.ok = 1) = e.ok \/ Fail(r, Why("parsed", r.ok, e.ok))
TreeIs(r, e, V(_)) == V(r.tree) = V(e.tree) \/ Fail(r, [what |-> "tree"])
Same(x) == x

Judge(r, e, P) ==
  /\ (r.p = 0) \/ Fail(r, [what |-> "panic"])
  /\ CASE P = "C01" -> (r.files = 1) \/ Fail(r, [what |-> "lost"])
       [] P = "C02" -> /\ OkIs(r, e) /\ TreeIs(r, e, Same) /\ SameBag(r, "positions", r.ds, e.ds, KS)
                       /\ \A j \in DOMAIN r.ds : r.ds[j].o = 1 \/ Fail(r, [what |-> "file of a diagnostic"])
       [] P = "C03" -> WellFormed(Doc(r.t)) \/ (\E j \in DOMAIN r.ds : r.ds[j].sev = "error") \/ Fail(r, [what |-> "silently accepted"])
       [] P = "C04" -> ~WellFormed(Doc(r.t)) \/ (r.ok = 1 /\ Kinds(r.ds) \cap SyntaxKinds = {})
                          \/ Fail(r, [what |-> "rejected", kinds |-> Kinds(r.ds) \cap SyntaxKinds])
       [] P = "C05" -> OkIs(r, e) /\ TreeIs(r, e, Strip)
       [] P = "C06" -> OkIs(r, e) /\ TreeIs(r, e, Strip) /\ SameBag(r, "syntax errors", OfKinds(r.ds, SyntaxErrorKinds), OfKinds(e.ds, SyntaxErrorKinds), KMS)
       [] P = "C07" -> SameBag(r, "naming", OfKinds(r.ds, NamingKinds), OfKinds(e.ds, NamingKinds), KMS)
       [] P = "C08" -> SameBag(r, "structure", OfKinds(r.ds, StructureKinds), OfKinds(e.ds, StructureKinds), KMS)
       [] P = "C09" -> SameBag(r, "references", OfKinds(r.ds, {"UnresolvedReference"}), OfKinds(e.ds, {"UnresolvedReference"}), KMS)
       [] P = "C10" -> \A j \in DOMAIN r.q : QueryOk(e, r.q[j]) \/ Fail(r, [what |-> "query", q |-> r.q[j]])
       [] P = "C20" -> /\ \A j \in DOMAIN r.ds : r.ds[j].sev = Severity(r.ds[j].k) \/ Fail(r, [what |-> "severity", d |-> r.ds[j].k])
                       /\ SameBag(r, "kinds", r.ds, e.ds, LAMBDA d : d.k)
       [] P = "C21" -> /\ OkIs(r, e)
                       /\ Literals(r.tree) = Literals(e.tree) \/ Fail(r, Why("literals", Literals(r.tree), Literals(e.tree)))
                       /\ SameBag(r, "literal errors", OfKinds(r.ds, LiteralKinds), OfKinds(e.ds, LiteralKinds), KMS)
       [] P = "C22" -> /\ OkIs(r, e) /\ TreeIs(r, e, Strip) /\ SameBag(r, "diagnostics", r.ds, e.ds, KM)
                       /\ (r.g < 0 \/ l = 1 \/ Trace[l - 1].g # r.g \/ ~SameTokens(r, Trace[l - 1])
                             \/ (Strip(r.tree) = Strip(Trace[l - 1].tree) /\ Bag(r.ds, KM) = Bag(Trace[l - 1].ds, KM))
                             \/ Fail(r, [what |-> "layout matters"]))
       [] P = "C23" -> OkIs(r, e) /\ SameBag(r, "syntax errors", OfKinds(r.ds, SyntaxErrorKinds), OfKinds(e.ds, SyntaxErrorKinds), KMS)
       [] OTHER -> Assert(FALSE, P)

\* the two descriptions of the language agree on every recorded document
Lemmas(r, e) ==
  WellFormed(Doc(r.t)) = (e.ok /\ Kinds(e.pds) \cap SyntaxKinds = {}) \/ Assert(FALSE, <<"Lemma", r.id>>)

All == <<"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C20", "C21", "C22", "C23">>
Check(r) ==
  LET e == Exp(r) IN
  IF Prop = "ALL" THEN Lemmas(r, e) /\ \A j \in DOMAIN All : Judge(r, e, All[j])
  ELSE Judge(r, e, Prop)

Init == \E c \in 0..(Chunks - 1) : l = (Len(Trace) * c) \div Chunks + 1 /\ hi = (Len(Trace) * (c + 1)) \div Chunks
Next == l <= hi /\ l' = l + 1 /\ hi' = hi
Spec == Init /\ [][Next]_vars
Holds == l > hi \/ Check(Trace[l])
=============================================================================
