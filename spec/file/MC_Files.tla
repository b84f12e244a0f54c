------------------------------ MODULE MC_Files ------------------------------
(* Every session on a tree of two names and two levels. *)
EXTENDS Files
Paths == {<<97>>, <<98>>, <<97, 47, 97>>, <<97, 47, 98>>, <<98, 47, 98>>}
Commands ==
  [op : {"mkdir", "rm"}, x : Paths] \cup [op : {"put"}, x : Paths, n : {1, 2}]
  \cup [op : {"link"}, x : Paths, y : {<<97>>, <<98>>}]
  \cup [op : {"rmdir"}, x : Paths, f : {"plain", "force", "sub"}] \cup {[op |-> "rmdir", f |-> "sub", x |-> <<>>]}
  \cup [op : {"cp", "mv"}, x : Paths, y : Paths, i : {0, 1}]
MNext == \E c \in Commands : Enabled(c) /\ Effect(c)
MSpec == Init /\ [][MNext]_tree
WellFormed == \A p \in DOMAIN tree : p # <<>> => There(Parent(p)) /\ tree[Parent(p)].t = "dir"
RootStays == Is(<<>>, "dir")
\* Removing something takes what is below it and nothing else; a link is not followed.
Removal == [][\A c \in Commands : (c.op \in {"rm", "rmdir"} /\ Enabled(c) /\ Effect(c)) =>
               /\ \A p \in DOMAIN tree' : tree'[p] = tree[p]
               /\ \A p \in DOMAIN tree \ DOMAIN tree' : SubSeq(p, 1, Len(P(c))) = P(c)]_tree
\* Directories are only made, never changed into files, by making, copying and moving.
Kept == [][\A c \in Commands : (c.op \in {"mkdir", "cp", "mv"} /\ Enabled(c) /\ Effect(c)) => \A p \in DOMAIN tree : tree[p].t = "dir" => tree'[p] = tree[p]]_tree
\* Contents are neither made up nor lost by moving.
Files_(tr) == {p \in DOMAIN tr : tr[p].t = "file"}
Moves == [][\A c \in Commands : (c.op = "mv" /\ Enabled(c) /\ Effect(c) /\ tree' # tree) => tree'[Q(c)] = tree[P(c)] /\ ~(P(c) \in DOMAIN tree') /\ (c.i = 1 => ~There(Q(c)))]_tree
=============================================================================
