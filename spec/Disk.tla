--------------------------------- MODULE Disk ---------------------------------
(* What may happen to the file system while a history or a session is running. *)
EXTENDS Paths

DiskOps == {"write", "bin", "mkdir", "link", "rm"}

Dirs(p) == { SubSeq(p, 1, j) : j \in 0..Len(p) }
PutFs(w, p, x) == [w EXCEPT !.fs = [q \in DOMAIN @ \cup {p} |-> IF q = p THEN x ELSE @[q]]]
MkDir(w, p) == [w EXCEPT !.fs = [q \in DOMAIN @ \cup Dirs(p) |-> IF q \in DOMAIN @ THEN @[q] ELSE [t |-> "d", c |-> <<>>]]]
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Delete(w, p) == [w EXCEPT !.fs = [q \in { x \in DOMAIN @ : ~IsPrefixOf(p, x) } |-> @[q]]]

\* writing through a symbolic link changes the file it leads to
WriteTo(w, p) == LET r == Walk(w, <<>>, p, 40) IN IF r.ok THEN r.p ELSE p

\* a world in which there is only the working directory
EmptyWorld(cwd) == MkDir([fs |-> << >>, cwd |-> cwd], cwd)

DiskOp(w, o, p, c) ==
  CASE o = "write" -> PutFs(w, WriteTo(w, p), [t |-> "f", c |-> c])
    [] o = "bin"   -> PutFs(w, WriteTo(w, p), [t |-> "x", c |-> <<>>])
    [] o = "mkdir" -> MkDir(w, p)
    [] o = "link"  -> PutFs(w, p, [t |-> "l", c |-> c])
    [] o = "rm"    -> Delete(w, p)
    [] OTHER -> w
===============================================================================
