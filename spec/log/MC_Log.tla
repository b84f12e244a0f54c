------------------------------- MODULE MC_Log -------------------------------
(***************************************************************************)
(* Every session of a file logger with small limits that also change: what *)
(* was said stays in order and is only lost with the oldest files.         *)
(***************************************************************************)
EXTENDS Log
CONSTANT Says
VARIABLES said, loose    \* what was handed on since the folder was set; whether a limit was lowered since
Dir1 == <<97, 47>>
Dir2 == <<98, 47>>
MInit == /\ said = <<>> /\ loose = FALSE /\ disk = NoDisk
         /\ \E a, b \in 1..3 : lg = [None EXCEPT !.kind = "file", !.logs = a, !.files = b, !.dir = Dir1]
Say == /\ disk.next + Len(said) < 2 * Says /\ Len(said) < Says
       /\ \E p \in 1..2 : LET ps == [i \in 1..p |-> <<Len(said) + i>>]
                          IN disk' = Put(disk, ps) /\ said' = said \o (IF Usable(lg.dir) THEN [i \in 1..p |-> Len(said) + i] ELSE <<>>) /\ UNCHANGED <<lg, loose>>
Limit == \E f \in {"logs", "files"}, n \in 1..3 : LET c == [op |-> "limit", f |-> f, n |-> n]
         IN Effect(c) /\ loose' = TRUE /\ UNCHANGED said
SetDir == \E d \in {Dir1, Dir2, Blocked} : Effect([op |-> "dir", y |-> d]) /\ said' = <<>> /\ loose' = FALSE
MNext == Say \/ Limit \/ SetDir
MSpec == MInit /\ [][MNext]_<<lg, disk, said, loose>>
Small == disk.next <= Says
Kept == Glue([i \in DOMAIN disk.mine |-> disk.files[disk.mine[i]].text])
Suffix == SubSeq(said, Len(said) - Len(Kept) + 1, Len(said)) = Kept
Newest == said # <<>> => Kept # <<>>
Mine == \A i \in DOMAIN disk.mine : disk.mine[i] \in DOMAIN disk.files /\ disk.files[disk.mine[i]].dir = lg.dir
Limits == ~loose => /\ Len(disk.mine) <= lg.files
                    /\ \A i \in DOMAIN disk.mine : disk.files[disk.mine[i]].n <= lg.logs
                    /\ \A i \in 1..(Len(disk.mine) - 1) : disk.files[disk.mine[i]].n = lg.logs
                    /\ (Len(said) > Len(Kept) => Len(disk.mine) = lg.files)
\* Files of others and of earlier folders stay.
Others == [][\A k \in DOMAIN disk.files : ~(\E i \in DOMAIN disk.mine : disk.mine[i] = k) => k \in DOMAIN disk'.files /\ disk'.files[k] = disk.files[k]]_<<lg, disk, said, loose>>
=============================================================================
