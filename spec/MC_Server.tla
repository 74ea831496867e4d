------------------------------ MODULE MC_Server ------------------------------
(* How the server's handlers interleave.  Messages arrive in order; at most    *)
(* Slots handlers run at a time.  A handler's first step changes the project    *)
(* and notes the files of the project; then it publishes the diagnostics of one  *)
(* file per step, reading the project at that moment, and other handlers' steps  *)
(* come in between.  Checked for every sequence of Depth messages and every      *)
(* interleaving:                                                                 *)
(*   - when everything is handled, every file of the project shows its           *)
(*     diagnostics (Converged),                                                  *)
(*   - everything that is ever shown was true in some state (NoInvention),       *)
(*   - the server comes to rest (Rests).                                         *)
(* With STALE = "1", a handler reads all diagnostics in its first step; then      *)
(* Converged does not hold, which shows that the interleavings matter.            *)
(* With EMIT = "1" the sequences of messages are printed, to be replayed.         *)
EXTENDS Server, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Stale == IOEnv.STALE = "1"
Slots == 4

\* --- a project of two documents, one including the other -----------------------
A == << <<82>>, StrBytes("a.dts") >>
B == << <<82>>, StrBytes("b.dtsi") >>
TextsOf == [f \in {"a.dts", "b.dtsi"} |->
  IF f = "a.dts" THEN {"/dts-v1/;\n/include/ \"b.dtsi\"\n/ { p = <&b>; };\n", "/dts-v1/;\n/ { p = <&b>, <&a>; }\n"}
  ELSE {"/ { b: nb { }; };\n", "/ { c: nb { }; };\n", "/ { b: nb { }\n"}]
PathFor(f) == IF f = "a.dts" THEN A ELSE B
DiskB == "/ { b: nb { }; };\n"
BytesOf == [t \in TextsOf["a.dts"] \cup TextsOf["b.dtsi"] |-> StrBytes(t)]
W == [fs |-> (B :> [t |-> "f", c |-> BytesOf[DiskB]]) @@ (<<>> :> [t |-> "d", c |-> <<>>]) @@ (<< <<82>> >> :> [t |-> "d", c |-> <<>>]), cwd |-> << <<82>> >>]

Msgs == UNION { { [m |-> k, u |-> f, t |-> t] : k \in {"open"}, t \in TextsOf[f] } : f \in DOMAIN TextsOf }
        \cup { [m |-> "close", u |-> f, t |-> ""] : f \in DOMAIN TextsOf }
Handle(sv, m) == IF m.m = "close" THEN DidClose(W, sv, PathFor(m.u)) ELSE DidOpen(W, sv, PathFor(m.u), BytesOf[m.t])

VARIABLES msgs,      \* all messages
          inbox,     \* those that have not been started
          running,   \* the handlers: number -> [todo: files to publish, snap: what to publish when Stale]
          sv,        \* the server's project
          view,      \* what the client shows
          truths     \* what was true at some time: <<file, diagnostics>>
vars == <<msgs, inbox, running, sv, view, truths>>

\* a sequence is fixed in advance, so that only the server's steps interleave
Init == /\ msgs \in [1..Depth -> Msgs]
        /\ inbox = msgs
        /\ running = EmptyFn
        /\ sv = ServerInit(W, <<>>)
        /\ view = EmptyFn
        /\ truths = {}
Truths(s) == { <<p, Published(s, p)>> : p \in {A, B} }
Begin ==
  /\ inbox # <<>>
  /\ Cardinality(DOMAIN running) < Slots
  /\ LET m == Head(inbox)
         sv2 == Handle(sv, m)
         no == Depth - Len(inbox) + 1
         fs == DOMAIN sv.pr.files \cup DOMAIN sv2.pr.files       \* also those that are closed, which show nothing any more
     IN /\ sv' = sv2
        /\ running' = IF fs = {} THEN running ELSE Put(running, no, [todo |-> fs, snap |-> IF Stale THEN [p \in fs |-> Published(sv2, p)] ELSE EmptyFn])
        /\ truths' = truths \cup Truths(sv2)
  /\ inbox' = Tail(inbox)
  /\ UNCHANGED <<msgs, view>>
Publish(no) ==
  \E p \in running[no].todo :
     /\ view' = Put(view, p, IF Stale THEN running[no].snap[p] ELSE Published(sv, p))
     /\ running' = LET left == running[no].todo \ {p} IN
                   IF left = {} THEN [x \in DOMAIN running \ {no} |-> running[x]] ELSE [running EXCEPT ![no].todo = left]
     /\ UNCHANGED <<msgs, inbox, sv, truths>>
Next == Begin \/ \E no \in DOMAIN running : Publish(no)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtRest == inbox = <<>> /\ running = EmptyFn
ShownFor(p) == IF p \in DOMAIN view THEN view[p] ELSE <<>>
Converged == AtRest => \A p \in {A, B} : ShownFor(p) = Published(sv, p)
NoInvention == \A p \in DOMAIN view : <<p, view[p]>> \in truths
Rests == <>AtRest
Emit == IOEnv.EMIT # "1" \/ ~AtRest \/ PrintT("@" \o ToJson([msgs |-> msgs]))
=============================================================================
