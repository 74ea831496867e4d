---------------------------- MODULE CheckProject ----------------------------
(* Checks recorded histories of project operations against the specification. *)
(* A trace line is one history:                                               *)
(*   ops:  the operations  [o, p: absolute path, n: name as given, t, ft, l]    *)
(*   cwd:  the working directory      root: the directory everything is in     *)
(*   runs: what was observed after each operation; repetitions of the history  *)
(*         that gave the same are recorded once                                *)
(* Every behaviour replays one history: each step is the specification's       *)
(* action for the recorded operation, and what was observed after the          *)
(* operation is judged in the state after the step.                            *)
EXTENDS Project, Disk, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES h, step, W, pr, ok          \* history, steps taken, world, project, result of the last operation
vars == <<h, step, W, pr, ok>>

\* --- the operations of a history, as actions of the specification -----------
FtOf(op) == IF op.ft = "" THEN FileTypeOf(op.p) ELSE op.ft

Init == /\ h \in DOMAIN Trace
        /\ step = 0
        /\ W = EmptyWorld(Trace[h].cwd)
        /\ pr = EmptyProject
        /\ ok = 1
Op == Trace[h].ops[step + 1]
World_ == /\ Op.o \in DiskOps
          /\ W' = DiskOp(W, Op.o, Op.p, Op.t) /\ UNCHANGED pr /\ ok' = 1
AddText_ == /\ Op.o = "text"
            /\ pr' = AddText(W, pr, Op.p, Op.t, FtOf(Op)) /\ UNCHANGED W /\ ok' = 1
AddFile_ == /\ Op.o = "file"
            /\ LET r == AddFile(W, pr, Op.n) IN pr' = r.pr /\ ok' = (IF r.ok THEN 1 ELSE 0)
            /\ UNCHANGED W
Remove_ == Op.o = "remove" /\ pr' = RemoveFile(W, pr, Op.p) /\ UNCHANGED W /\ ok' = 1
Config_ == Op.o = "inc" /\ pr' = SetIncludes(W, pr, Op.l) /\ UNCHANGED W /\ ok' = 1
Next == /\ step < Len(Trace[h].ops)
        /\ step' = step + 1 /\ h' = h
        /\ (World_ \/ AddText_ \/ AddFile_ \/ Remove_ \/ Config_)
Spec == Init /\ [][Next]_vars

\* --- judging ---------------------------------------------------------------------
Fail(why) == PrintT("@" \o ToJson([id |-> Trace[h].id, step |-> step, why |-> why])) /\ FALSE
KMS(d) == [k |-> d.k, s |-> d.s, m |-> d.m]
Bag(ds) == LET X == { KMS(ds[j]) : j \in DOMAIN ds } IN [x \in X |-> Cardinality({ j \in DOMAIN ds : KMS(ds[j]) = x })]
OfKinds(ds, ks) == SelectSeq(ds, LAMBDA d : d.k \in ks)
SameBag(p, what, got, exp) ==
  LET a == Bag(got) b == Bag(exp) IN
  a = b \/ Fail([what |-> what, file |-> p, unexpected |-> DOMAIN a \ DOMAIN b, missing |-> DOMAIN b \ DOMAIN a])

SamePaths(o) ==
  LET got == { o.files[j].p : j \in DOMAIN o.files } IN
  (got = DOMAIN pr.files /\ Len(o.files) = Cardinality(got)) \/ Fail([what |-> "files", unexpected |-> got \ DOMAIN pr.files, missing |-> DOMAIN pr.files \ got])

QueryOk(rec, q) ==
  LET it == IF rec.ok THEN ItemAt(rec.tree, q.l, q.c) ELSE <<>> IN
  IF it = <<>> THEN q.k = "none"
  ELSE LET n == it[1] IN
       /\ q.k = n.k /\ q.v = n.v
       /\ IF n.k = "include" THEN
            LET t == IncTarget(W, rec, n) IN q.t = (IF t.ok THEN << [s |-> NoSpan, f |-> t.p] >> ELSE <<>>)
          ELSE IF ~IsRef(n.k) THEN TRUE
          ELSE LET t == TargetOf(rec.ctx, n) IN
               IF t = <<>> THEN q.t = <<>> /\ q.d = <<>>
               ELSE /\ Len(q.t) = 1 /\ q.t[1].s = t[1].s /\ q.t[1].f = t[1].f
                    /\ Len(q.d) = 1 /\ q.d[1] = <<78,111,100,101,32>> \o t[1].nm
Queries(f, rec) == \A j \in DOMAIN f.q : QueryOk(rec, f.q[j]) \/ Fail([what |-> "query", file |-> f.p, q |-> f.q[j]])

\* cycles: what is reported must be on a cycle, and every cycle must be broken by the reported includes
Cut(o) == { e \in Edges(W, pr.files) :
              \E j \in DOMAIN o.files : o.files[j].p = e[1] /\
                \E d \in DOMAIN o.files[j].ds : o.files[j].ds[d].k = "CyclicDependencyError" /\
                  \E n \in Range(IncludesOf(pr.files[e[1]])) : n.s = o.files[j].ds[d].s /\ IncTarget(W, pr.files[e[1]], n) = Found(e[2]) }
ChainOk(E, c) == /\ Len(c) >= 2 /\ c[1] = c[Len(c)]
                 /\ \/ \A j \in 1..(Len(c) - 1) : <<c[j], c[j + 1]>> \in E
                    \/ \A j \in 1..(Len(c) - 1) : <<c[j + 1], c[j]>> \in E
CyclesOk(o) ==
  LET E == Edges(W, pr.files)
      analyzed == { p \in DOMAIN pr.files : pr.files[p].ok }
      kept == { e \in E : e \notin Cut(o) }
  IN
  \* every reported include is an include whose target lies on a cycle; the chain is a cycle
  /\ \A j \in DOMAIN o.files : \A d \in DOMAIN o.files[j].ds :
       LET f == o.files[j] x == f.ds[d] IN
       x.k # "CyclicDependencyError" \/
       (LET ts == { IncTarget(W, pr.files[f.p], n) : n \in { m \in Range(IncludesOf(pr.files[f.p])) : m.s = x.s } } IN
        \/ \E t \in ts : t.ok /\ OnCycle(E, t.p) /\ ChainOk(E, x.c)
        \/ Fail([what |-> "reported include is not cyclic", file |-> f.p, d |-> x]))
  \* without the reported includes there is no cycle
  /\ \A p \in DOMAIN pr.files : ~OnCycle(kept, p) \/ Fail([what |-> "cycle not reported", file |-> p])
  \* at most one report per include statement
  /\ \A j \in DOMAIN o.files : LET c == OfKinds(o.files[j].ds, {"CyclicDependencyError"}) IN
       Len(c) = Cardinality({ c[d].s : d \in DOMAIN c }) \/ Fail([what |-> "reported twice", file |-> o.files[j].p])

Judge(o, P) ==
  LET E == Edges(W, pr.files) IN
  /\ SamePaths(o)
  /\ \A j \in DOMAIN o.files :
       LET f == o.files[j]
           rec == pr.files[f.p]
           exp == DiagsOf(pr, f.p)
           loose == Affected(E, f.p)
       IN
       CASE P = "C01" -> f.src = rec.text \/ Fail([what |-> "contents", file |-> f.p])
         [] P = "C11" -> /\ loose \/ SameBag(f.p, "unreadable includes", OfKinds(f.ds, {"IOError"}), OfKinds(exp, {"IOError"}))
                         /\ \A q \in DOMAIN f.q : f.q[q].k # "include" \/ QueryOk(rec, f.q[q]) \/ Fail([what |-> "include target", file |-> f.p, q |-> f.q[q]])
                         /\ f.src = rec.text \/ Fail([what |-> "contents", file |-> f.p])
         [] P = "C12" -> loose \/ (/\ LET ks == {"UnresolvedReference", "ErrorsInInclude", "CyclicDependencyError"} IN
                                        SameBag(f.p, "included definitions", OfKinds(f.ds, ks), OfKinds(exp, ks))
                                   /\ Queries(f, rec))
         [] P = "C08" -> SameBag(f.p, "structure", OfKinds(f.ds, StructureKinds), OfKinds(exp, StructureKinds))
         [] P = "C09" -> loose \/ SameBag(f.p, "references", OfKinds(f.ds, {"UnresolvedReference"}), OfKinds(exp, {"UnresolvedReference"}))
         [] P = "C10" -> loose \/ Queries(f, rec)
         [] P = "C13" -> loose \/ OfKinds(f.ds, {"CyclicDependencyError"}) = <<>> \/ Fail([what |-> "no cycle", file |-> f.p])
         [] P = "C14" -> /\ f.ok = (IF rec.ok THEN 1 ELSE 0) \/ Fail([what |-> "parsed", file |-> f.p])
                         /\ (f.found = 1 /\ f.src = rec.text) \/ Fail([what |-> "contents", file |-> f.p])
                         /\ loose \/ (f.has = (IF rec.has THEN 1 ELSE 0)) \/ Fail([what |-> "analysed", file |-> f.p])
                         /\ loose \/ SameBag(f.p, "diagnostics", f.ds, exp)
                         /\ loose \/ Queries(f, rec)
         [] OTHER -> Assert(FALSE, P)
  /\ P # "C13" \/ CyclesOk(o)

Ops == Trace[h].ops
Runs == Trace[h].runs
Check ==
  /\ Trace[h].p = 0 \/ Fail([what |-> "panic"])
  /\ \A r \in DOMAIN Runs :
       /\ Runs[r][step].res = ok \/ Fail([what |-> "result"])
       \* after changes on disk, nothing is claimed until the next operation of the project
       /\ Ops[step].o \in DiskOps \/ ok = 0 \/ Judge(Runs[r][step], Prop)
  /\ Prop # "C14" \/ Len(Runs) = 1 \/ Fail([what |-> "not deterministic"])
Holds == step = 0 \/ Check
=============================================================================
