---------------------------- MODULE MC_Project ----------------------------
(* Every include graph over three files, followed by every short sequence of  *)
(* changes: a file is added from disk, then files get new texts (with other   *)
(* includes) or are removed.  Checked in every state:                         *)
(*   - the diagnostics are those of a fresh project with the same texts,      *)
(*     except for files that depend on a cycle,                               *)
(*   - every cycle is reported, and nothing but includes on cycles,           *)
(*   - labels of included files are visible, all others are not.              *)
(* With EMIT = "1" the histories are printed, to be replayed into the         *)
(* implementation.                                                            *)
EXTENDS Project, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)              \* number of operations
Fan == atoi(IOEnv.FAN)                  \* includes per file
Errs == IOEnv.ERRS = "1"                \* with files that contain errors

Files == {"a", "b", "c"}
FileName(f) == f \o ".dts"
PathOf(f) == << <<82>>, StrBytes(FileName(f)) >>
FileOf(p) == CHOOSE f \in Files : PathOf(f) = p

IncludeSets == { S \in SUBSET Files : Cardinality(S) <= Fan }
SortedFiles(S) == SelectSeq(<<"a", "b", "c">>, LAMBDA f : f \in S)
TextOf(f, S, e) ==
  "/dts-v1/;\n"
  \o FoldLeft(LAMBDA acc, g : acc \o "/include/ \"" \o FileName(g) \o "\"\n", "", SortedFiles(S))
  \o "/ { " \o f \o ": n" \o f \o " { p = <&a>, <&b>, <&c>; };" \o (IF e THEN "}" ELSE "};")
\* parsing is the expensive part, and there are few texts
Texts == { TextOf(f, S, e) : f \in Files, S \in IncludeSets, e \in (IF Errs THEN BOOLEAN ELSE {FALSE}) }
BytesOf == [t \in Texts |-> StrBytes(t)]

VARIABLES disk, pr, hist
vars == <<disk, pr, hist>>

W == [fs |-> [p \in { PathOf(f) : f \in Files } \cup { <<>>, << <<82>> >> } |->
                IF Len(p) < 2 THEN [t |-> "d", c |-> <<>>] ELSE [t |-> "f", c |-> BytesOf[disk[FileOf(p)]]]],
      cwd |-> << <<82>> >>]

ErrVals == IF Errs THEN BOOLEAN ELSE {FALSE}
Init == /\ \E G \in [Files -> IncludeSets], e \in [Files -> ErrVals] : disk = [f \in Files |-> TextOf(f, G[f], e[f])]
        /\ pr = EmptyProject
        /\ hist = <<>>
Open(f) == /\ hist = <<>>
           /\ pr' = AddText(W, pr, PathOf(f), BytesOf[disk[f]], "dts")
           /\ hist' = << [o |-> "file", p |-> FileName(f), t |-> ""] >>
           /\ UNCHANGED disk
Change(f, S, e) == /\ hist # <<>> /\ Len(hist) < Depth
                   /\ pr' = AddText(W, pr, PathOf(f), BytesOf[TextOf(f, S, e)], "dts")
                   /\ hist' = Append(hist, [o |-> "text", p |-> FileName(f), t |-> TextOf(f, S, e)])
                   /\ UNCHANGED disk
Drop_(f) == /\ hist # <<>> /\ Len(hist) < Depth
             /\ PathOf(f) \in DOMAIN pr.files
             /\ pr' = RemoveFile(W, pr, PathOf(f))
             /\ hist' = Append(hist, [o |-> "remove", p |-> FileName(f), t |-> ""])
             /\ UNCHANGED disk
Next == (\E f \in Files : Open(f)) \/ (\E f \in Files, S \in IncludeSets, e \in ErrVals : Change(f, S, e)) \/ (\E f \in Files : Drop_(f))
Spec == Init /\ [][Next]_vars

\* --- lemmas ------------------------------------------------------------------------
Settled == hist # <<>>
E == Edges(W, pr.files)
DiagSet(ds) == { ds[j] : j \in DOMAIN ds }
CyclesOf(p) == { pr.files[p].ads[j] : j \in { i \in DOMAIN pr.files[p].ads : pr.files[p].ads[i].k = "CyclicDependencyError" } }

Fresh == FoldLeft(LAMBDA acc, p : AddText(W, acc, p, pr.files[p].text, pr.files[p].ft), EmptyProject, SortPaths(DOMAIN pr.files))
HistoryIndependent ==
  LET F == Fresh IN
  \A p \in DOMAIN pr.files : p \in DOMAIN F.files /\ (Affected(E, p) \/ (DiagsOf(F, p) = DiagsOf(pr, p) /\ F.files[p].ctx = pr.files[p].ctx))

Closed == \A e \in E : e[2] \in DOMAIN pr.files
CutEdges == { e \in E : \E d \in CyclesOf(e[1]) : \E n \in Range(IncludesOf(pr.files[e[1]])) : n.s = d.s /\ IncTarget(W, pr.files[e[1]], n) = Found(e[2]) }
CyclesBroken == /\ \A e \in CutEdges : OnCycle(E, e[2])
                /\ \A p \in DOMAIN pr.files : ~OnCycle(E \ CutEdges, p)

\* a reference to the label of file g is resolved in file p exactly if g = p or g is included
Visible == \A p \in DOMAIN pr.files : Affected(E, p) \/
             { FileOf(q) : q \in (ReachFrom(E, p) \cup {p}) } = { g \in Files : StrBytes(g) \in DOMAIN pr.files[p].ctx.labels }
\* an include is erroneous exactly if the included file has an error
Errors == \A p \in DOMAIN pr.files : Affected(E, p) \/
             ((\E d \in DiagSet(pr.files[p].ads) : d.k = "ErrorsInInclude") = (\E e \in E : e[1] = p /\ HasErrors(pr.files[e[2]])))

Lemmas == Settled => (HistoryIndependent /\ Closed /\ CyclesBroken /\ Visible /\ Errors)
Emit == Len(hist) # Depth \/ PrintT("@" \o ToJson([disk |-> disk, ops |-> hist]))
Visit == (IOEnv.LEMMAS = "1" => Lemmas) /\ (IOEnv.EMIT = "1" => Emit)
=============================================================================
