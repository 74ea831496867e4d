----------------------------- MODULE CheckServer -----------------------------
(* Checks recorded sessions of the language server against the specification. *)
(* A trace line is one session: the messages in the order in which they were   *)
(* sent, each with what came back, and what the client showed whenever the      *)
(* server had come to rest:                                                     *)
(*   ops:  [o: message or "settle", p: path, fg: 1 for URIs that are no files,  *)
(*          ts: texts, incs: include directories, l, c: position,               *)
(*          n: number of answers, err: error code, r: answer,                    *)
(*          view: what was published last for every file]                       *)
(*   cli:  include directories of the command line     cwd: working directory    *)
(*   alive: 1 if the server was running until it was told to stop                *)
EXTENDS Server, Disk, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES h, step, W, sv
vars == <<h, step, W, sv>>

Init == /\ h \in DOMAIN Trace
        /\ step = 0
        /\ W = EmptyWorld(Trace[h].cwd)
        /\ sv = [pr |-> EmptyProject, cli |-> Trace[h].cli]
Op == Trace[h].ops[step + 1]
World_ == Op.o \in DiskOps /\ W' = DiskOp(W, Op.o, Op.p, IF Op.ts = <<>> THEN <<>> ELSE Op.ts[1]) /\ UNCHANGED sv
Document_ == /\ Op.o \in {"open", "change", "close"} /\ UNCHANGED W
             /\ sv' = IF Op.fg = 1 THEN sv
                      ELSE CASE Op.o = "open" -> DidOpen(W, sv, Op.p, Op.ts[1])
                             [] Op.o = "change" -> DidChange(W, sv, Op.p, Op.ts)
                             [] Op.o = "close" -> DidClose(W, sv, Op.p)
Config_ == Op.o = "config" /\ UNCHANGED W /\ sv' = DidConfigure(W, sv, Op.incs)
Other_ == Op.o \in {"hover", "definition", "symbols", "other", "settle", "note"} /\ UNCHANGED <<W, sv>>
Next == /\ step < Len(Trace[h].ops)
        /\ step' = step + 1 /\ h' = h
        /\ (World_ \/ Document_ \/ Config_ \/ Other_)
Spec == Init /\ [][Next]_vars

\* --- judging ----------------------------------------------------------------------
Fail(why) == PrintT("@" \o ToJson([id |-> Trace[h].id, step |-> step, why |-> why])) /\ FALSE
Now == Trace[h].ops[step]
Loose(p) == LET q == KnownAs(W, p) IN q \in DOMAIN sv.pr.files /\ Affected(Edges(W, sv.pr.files), q)

Answer(o) ==
  CASE o.o = "hover" -> Hover(W, sv, o.p, o.l, o.c)
    [] o.o = "definition" -> Definition(W, sv, o.p, o.l, o.c)
    [] o.o = "symbols" -> Symbols(W, sv, o.p)
AnswerOk(o) ==
  \/ o.err # 0
  \/ o.n = 0
  \/ IF o.fg = 1 THEN o.r = <<>> \/ Fail([what |-> "answer for no file", op |-> [o EXCEPT !.r = 0], got |-> o.r]) ELSE
     LET a == Answer(o) IN
     a = o.r \/ (o.o # "symbols" /\ Loose(o.p)) \/ Fail([what |-> "answer", op |-> [o EXCEPT !.r = 0], got |-> o.r, expected |-> a])

AnsweredOnce(o) == o.n = 1 \/ Fail([what |-> "number of answers", op |-> [o EXCEPT !.r = 0]])
NoError(o) == o.err = 0 \/ Fail([what |-> "error", op |-> [o EXCEPT !.r = 0]])

\* diagnostics as they are published
Pub(d) == [k |-> CodeName[d.k], s |-> d.s, m |-> d.m, sev |-> Severity(d.k)]
Got(d) == [k |-> d.k, s |-> d.s, m |-> d.m, sev |-> d.sev]
BagOf(ds, V(_)) == LET X == { V(ds[j]) : j \in DOMAIN ds } IN [x \in X |-> Cardinality({ j \in DOMAIN ds : V(ds[j]) = x })]
Shown(view, p) == LET js == { j \in DOMAIN view : view[j].p = p } IN IF js = {} THEN <<>> ELSE view[CHOOSE j \in js : TRUE].ds
\* A document that was opened through a link to nothing has the path of the link; once something is there, it has two
\* names, and which one counts is not determined.
Unsettled(p) == p \in DOMAIN W.fs /\ W.fs[p].t = "l"
Converged(view) ==
  LET E == Edges(W, sv.pr.files) IN
  \A p \in DOMAIN sv.pr.files :
    \/ Affected(E, p) \/ Unsettled(p)
    \/ LET a == BagOf(Shown(view, p), Got) b == BagOf(Published(sv, p), Pub) IN
       a = b \/ Fail([what |-> "shown", file |-> p, unexpected |-> DOMAIN a \ DOMAIN b, missing |-> DOMAIN b \ DOMAIN a])
\* files that are no longer part of the project show nothing
NothingLeft(view) ==
  \A j \in DOMAIN view : LET p == view[j].p IN
    p \in DOMAIN sv.pr.files \/ Unsettled(p) \/ view[j].ds = <<>> \/ Fail([what |-> "left over", file |-> p])
Severities(view) == \A j \in DOMAIN view : \A d \in DOMAIN view[j].ds :
  (\E k \in DOMAIN CodeName : CodeName[k] = view[j].ds[d].k /\ view[j].ds[d].sev = Severity(k)) \/ Fail([what |-> "severity", d |-> view[j].ds[d]])

Requests == {"hover", "definition", "symbols"}
Check ==
  CASE Prop = "C15" -> Now.o # "settle" \/ (Converged(Now.view) /\ NothingLeft(Now.view))
    [] Prop = "C16" -> /\ Trace[h].alive = 1 \/ Fail([what |-> "server died"])
                       /\ Now.o \notin Requests \/ (AnsweredOnce(Now) /\ NoError(Now) /\ AnswerOk(Now))
                       /\ Now.o # "other" \/ AnsweredOnce(Now)
    [] Prop = "C17" -> Now.o # "symbols" \/ (AnsweredOnce(Now) /\ AnswerOk(Now))
    [] Prop = "C18" -> Now.o \notin {"hover", "definition"} \/ (AnsweredOnce(Now) /\ AnswerOk(Now))
    [] Prop = "C20" -> Now.o # "settle" \/ Severities(Now.view)
    [] OTHER -> Assert(FALSE, Prop)
Holds == step = 0 \/ Check
=============================================================================
