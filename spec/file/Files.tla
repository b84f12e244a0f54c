-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* A tree of directories, files and links below a scratch directory, and   *)
(* the functions of basicsys that list and change it; then the functions   *)
(* that take paths apart.                                                  *)
(* Paths are bytes, relative to the scratch directory; in the tree they    *)
(* are sequences of names.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE tree   \* path -> [t |-> "dir"], [t |-> "file", v], [t |-> "link", to]
Init == tree = (<<>> :> [t |-> "dir", v |-> 0])

Slash == 47
RECURSIVE Names(_)
\* The names of a path without its empty parts.
Names(x) ==
  LET H == {i \in DOMAIN x : x[i] = Slash}
  IN IF x = <<>> THEN <<>> ELSE IF H = {} THEN <<x>>
     ELSE LET i == CHOOSE i \in H : \A j \in H : i <= j
          IN (IF i = 1 THEN <<>> ELSE <<SubSeq(x, 1, i - 1)>>) \o Names(SubSeq(x, i + 1, Len(x)))
RECURSIVE Bytes(_)
Bytes(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<Slash>> \o Bytes(Tail(p))
P(c) == Names(c.x)
Q(c) == Names(c.y)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
There(p) == p \in DOMAIN tree
Is(p, t) == There(p) /\ tree[p].t = t
Prefixes(p) == {SubSeq(p, 1, i) : i \in 0..Len(p)}
\* Nothing on the way is a link.
Plain(p) == \A q \in Prefixes(p) : ~Is(q, "link")
PlainParent(p) == p # <<>> /\ Plain(Parent(p))
Below(p) == {q \in DOMAIN tree : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p}
Children(p) == {q \in Below(p) : Len(q) = Len(p) + 1}
Without(S) == [q \in DOMAIN tree \ S |-> tree[q]]
Dir == [t |-> "dir", v |-> 0]

\* Lists of counted strings, each followed by so many numbers.
RECURSIVE Items(_, _, _)
Items(r, i, more) == IF i > Len(r) THEN <<>> ELSE <<SubSeq(r, i + 1, i + r[i] + more)>> \o Items(r, i + 1 + r[i] + more, more)
\* r lists the strings of S, each once.
Lists(r, S) == LET it == TLCEval(Items(r, 1, 0)) IN Len(it) = Cardinality(S) /\ {it[i] : i \in DOMAIN it} = S
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Name(p) == p[Len(p)]
Shown(q) == tree[q]
\* The whole tree: path, kind, content.
Kind(t) == CASE t = "dir" -> 1 [] t = "file" -> 2 [] t = "link" -> 3
IsWhole(t, tr) == LET it == TLCEval(Items(t, 1, 2))
                  IN /\ Len(it) = Cardinality(DOMAIN tr) - 1
                     /\ {it[i] : i \in DOMAIN it} = {Bytes(q) \o <<Kind(tr[q].t), tr[q].v>> : q \in DOMAIN tr \ {<<>>}}

---------------------------------------------------------------------------
(* Taking paths apart                                                      *)
Norm(x) == [i \in DOMAIN x |-> IF x[i] = 92 THEN Slash ELSE x[i]]
Last(x, b) == LET H == {i \in DOMAIN x : x[i] = b} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i >= j
FileName(x) == LET s == Norm(x) IN SubSeq(s, Last(s, Slash) + 1, Len(s))
Dot(s) == Last(s, 46)
Title(x) == LET s == FileName(x) IN IF Dot(s) = 0 THEN s ELSE SubSeq(s, 1, Dot(s) - 1)
Low(b) == IF b \in 65..90 THEN b + 32 ELSE b
Extend(x) == LET s == FileName(x) IN IF Dot(s) = 0 THEN <<>> ELSE [i \in 1..(Len(s) - Dot(s) + 1) |-> Low(s[Dot(s) - 1 + i])]
DirPath(x) == LET s == Norm(x) IN SubSeq(s, 1, Last(s, Slash))
DirName(x) == FileName(SubSeq(x, 1, Len(x) - 1))
PathEnabled(c) ==
  CASE c.f \in {"name", "title", "ext"} -> TRUE
    [] c.f = "isdir" -> TRUE
    [] c.f = "dir" -> c.x = <<>> \/ Last(Norm(c.x), Slash) # 0
    [] c.f = "dirname" -> c.x = <<>> \/ Norm(c.x)[Len(c.x)] = Slash
PathOf(c) ==
  CASE c.f = "name" -> FileName(c.x) [] c.f = "title" -> Title(c.x) [] c.f = "ext" -> Extend(c.x)
    [] c.f = "dir" -> DirPath(c.x) [] c.f = "dirname" -> IF c.x = <<>> THEN <<>> ELSE DirName(c.x)
    [] c.f = "isdir" -> <<IF c.x # <<>> /\ Norm(c.x)[Len(c.x)] = Slash THEN 1 ELSE 0>>

---------------------------------------------------------------------------
(* The tree                                                                *)
\* Targets of a copy or a move: a place for a file.
Place(p) == p # <<>> /\ Plain(p) /\ ~Is(p, "dir")
\* A copy of a file takes its content.
Transfers(c) == Is(P(c), "file") /\ Is(Parent(Q(c)), "dir") /\ ~(c.i = 1 /\ There(Q(c)))
NoLinksIn(p) == \A q \in Children(p) : tree[q].t # "link"
\* Where everything up to the first missing directory is a directory.
Creatable(p) == \A q \in Prefixes(p) : There(q) => tree[q].t = "dir"

Enabled(c) ==
  CASE c.op = "mkdir" -> P(c) # <<>> /\ Plain(P(c)) /\ ~Is(P(c), "file")
    [] c.op = "put" -> Place(P(c)) /\ Is(Parent(P(c)), "dir") /\ c.n \in 1..9
    [] c.op = "link" -> P(c) # <<>> /\ Plain(P(c)) /\ ~There(P(c)) /\ Is(Parent(P(c)), "dir") /\ Is(Q(c), "dir") /\ Plain(Q(c))
    [] c.op = "exist" -> P(c) # <<>> /\ Plain(P(c))
    [] c.op = "files" -> Plain(P(c)) /\ ~Is(P(c), "file") /\ NoLinksIn(P(c))
    [] c.op = "dirs" -> Plain(P(c)) /\ ~Is(P(c), "file")
    [] c.op = "rm" -> PlainParent(P(c)) /\ ~Is(P(c), "dir")
    [] c.op = "rmdir" -> Plain(P(c)) /\ ~Is(P(c), "file") /\ (P(c) = <<>> => c.f = "sub")
    [] c.op \in {"cp", "mv"} -> Place(P(c)) /\ Place(Q(c)) /\ P(c) # Q(c)
    [] c.op = "path" -> PathEnabled(c)
Effect(c) ==
  CASE c.op = "mkdir" -> tree' = (IF Creatable(P(c)) THEN tree @@ [q \in Prefixes(P(c)) |-> Dir] ELSE tree)
    [] c.op = "put" -> tree' = (P(c) :> [t |-> "file", v |-> c.n]) @@ tree
    [] c.op = "link" -> tree' = (P(c) :> [t |-> "link", v |-> 0]) @@ tree
    [] c.op = "rm" -> tree' = Without({P(c)})
    [] c.op = "rmdir" ->
         tree' = (CASE c.f = "plain" -> (IF Below(P(c)) = {} THEN Without({P(c)}) ELSE tree)
                    [] c.f = "force" -> Without(Below(P(c)) \cup {P(c)})
                    [] c.f = "sub" -> Without(Below(P(c))))
    [] c.op = "cp" -> tree' = (IF Transfers(c) THEN (Q(c) :> tree[P(c)]) @@ tree ELSE tree)
    [] c.op = "mv" -> tree' = (IF Transfers(c) THEN (Q(c) :> tree[P(c)]) @@ Without({P(c)}) ELSE tree)
    [] OTHER -> UNCHANGED tree
Flag(b) == IF b THEN 1 ELSE 0
Under(c) == IF P(c) = <<>> THEN <<>> ELSE Bytes(P(c)) \o <<Slash>>
Answer(e) ==
  /\ e.escapes = 0
  /\ IF e.op = "path" THEN TRUE ELSE IsWhole(e.t, tree')
  /\ CASE e.op = "mkdir" -> e.r = Flag(Creatable(P(e)))
       [] e.op = "exist" -> e.r = Flag(There(P(e)))
       [] e.op = "files" ->
            LET S == {Name(q) : q \in {q \in Children(P(e)) : tree[q].t = "file" /\ EndsWith(Name(q), e.y)}}
            IN Lists(e.r, IF e.f = "name" THEN S ELSE {Under(e) \o s : s \in S})
       [] e.op = "dirs" -> Lists(e.r, {Bytes(q) \o <<Slash>> : q \in {q \in Children(P(e)) : tree[q].t = "dir"}})
       [] e.op \in {"cp", "mv"} -> e.r = Flag(Transfers(e))
       [] e.op = "path" -> e.r = PathOf(e)
       [] OTHER -> TRUE
Do(e) == Enabled(e) /\ Effect(e) /\ Answer(e)
=============================================================================
