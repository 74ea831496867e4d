------------------------------- MODULE CheckCli -------------------------------
(* Checks recorded runs of the command line tool against the specification.    *)
(* A trace line is a scenario: operations on the file system and runs          *)
(*   [o: operation or "run", p: path, n: file name or contents,                 *)
(*    incs: -i options, code: exit status, ok: 1 if nothing but the message of   *)
(*    success was printed, blocks: the report, junk: what is no block]           *)
EXTENDS Report, Disk, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES h, step, W, run
vars == <<h, step, W, run>>

NoRun == [read |-> FALSE, pr |-> EmptyProject]
Init == /\ h \in DOMAIN Trace
        /\ step = 0
        /\ W = EmptyWorld(Trace[h].cwd)
        /\ run = NoRun
Op == Trace[h].ops[step + 1]
World_ == Op.o \in DiskOps /\ W' = DiskOp(W, Op.o, Op.p, Op.n) /\ run' = NoRun
Run_ == Op.o = "run" /\ run' = Load(W, Op.n, Op.incs) /\ UNCHANGED W
Next == /\ step < Len(Trace[h].ops)
        /\ step' = step + 1 /\ h' = h
        /\ (World_ \/ Run_)
Spec == Init /\ [][Next]_vars

\* --- judging ----------------------------------------------------------------------
Fail(why) == PrintT("@" \o ToJson([id |-> Trace[h].id, step |-> step, why |-> why])) /\ FALSE
Now == Trace[h].ops[step]

\* the wording of these is not ours
Vague == {"IOError", "CyclicDependencyError"}
View(b) == [b EXCEPT !.m = IF b.m \in {"io", "cycle"} THEN "" ELSE @]
Bag(seq) == LET bs == TLCEval([j \in DOMAIN seq |-> View(seq[j])]) X == Range(bs) IN [x \in X |-> Cardinality({ j \in DOMAIN bs : bs[j] = x })]
\* the recorded blocks of a file; messages that the specification leaves open are blanked
Got(p, expected) ==
  LET open == { d \in Range(expected) : d.m \in {"io", "cycle"} }
      bs == SelectSeq(Now.blocks, LAMBDA b : b.p = p)
  IN  [j \in DOMAIN bs |-> IF \E d \in open : [d EXCEPT !.m = bs[j].m] = bs[j] THEN [bs[j] EXCEPT !.m = "io"] ELSE bs[j]]

Verdict ==
  IF Success(run) THEN (Now.code = 0 /\ Now.ok = 1) \/ Fail([what |-> "no success", code |-> Now.code, ok |-> Now.ok])
  ELSE (Now.code = 1 /\ Now.ok = 0) \/ Fail([what |-> "no failure", code |-> Now.code, ok |-> Now.ok])
Shown ==
  LET E == Edges(W, run.pr.files) IN
  /\ Now.junk = 0 \/ Fail([what |-> "not a report"])
  /\ \A j \in DOMAIN Now.blocks : Now.blocks[j].p \in DOMAIN run.pr.files \/ Fail([what |-> "no such file", block |-> Now.blocks[j]])
  /\ \A p \in DOMAIN run.pr.files :
       LET ls == TLCEval(Lines(run.pr.files[p].text)) IN
       \A j \in DOMAIN Now.blocks : LET b == Now.blocks[j] IN
          \/ b.p # p \/ b.src = (Decimal(b.l) \o Bar \o <<32>>) \o LineAt(ls, b.l - 1)
          \/ Fail([what |-> "no such line", block |-> b])
  /\ \A p \in DOMAIN run.pr.files :
       \/ Affected(E, p)
       \/ LET bs == TLCEval(BlocksOf(run, p)) a == Bag(Got(p, bs)) b == Bag(bs) IN
          a = b \/ Fail([what |-> "report", file |-> p, unexpected |-> DOMAIN a \ DOMAIN b, missing |-> DOMAIN b \ DOMAIN a])
Severities ==
  \A p \in DOMAIN run.pr.files : Affected(Edges(W, run.pr.files), p) \/
    LET bs == TLCEval(BlocksOf(run, p)) IN
    \A j \in DOMAIN Now.blocks : LET b == Now.blocks[j] IN
       \/ b.p # p
       \/ (\E d \in Range(bs) : <<d.l, d.c, d.sev>> = <<b.l, b.c, b.sev>> /\ d.m \in {b.m, "io", "cycle"})
       \/ Fail([what |-> "severity", block |-> b])
Check ==
  CASE Prop = "C19" -> Verdict /\ Shown
    [] Prop = "C20" -> Severities
    [] OTHER -> Assert(FALSE, Prop)
Holds == step = 0 \/ Now.o # "run" \/ Check
===============================================================================
