------------------------------ MODULE MC_Stats ------------------------------
(***************************************************************************)
(* Threads that count under a lock, one action per access to the shared    *)
(* map, as sys_alg_analyzer does: find, then insert or change.  The result *)
(* is the one Stats gives, and without the lock it is not.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Times, Locked
VARIABLES sum, top, pc, seen, left, lock, free
S == INSTANCE Stats WITH live <- TRUE, info <- <<>>, now <- 0, timers <- <<>>, tester <- [type |-> "none", right |-> 0, all |-> 0]
None == -1
MInit == /\ sum = None /\ top = None /\ free = 0 /\ lock = None
         /\ pc = [t \in Threads |-> "add"] /\ seen = [t \in Threads |-> None] /\ left = [t \in Threads |-> Times]
Own(t) == ~Locked \/ lock = t
Take(t) == Locked /\ lock = None /\ lock' = t /\ pc[t] \in {"add", "max"} /\ UNCHANGED <<sum, top, pc, seen, left, free>>
Find(t) == /\ pc[t] \in {"add", "max"} /\ Own(t)
           /\ seen' = [seen EXCEPT ![t] = IF pc[t] = "add" THEN sum ELSE top]
           /\ pc' = [pc EXCEPT ![t] = IF pc[t] = "add" THEN "added" ELSE "maxed"] /\ UNCHANGED <<sum, top, left, lock, free>>
Add(t) == /\ pc[t] = "added"
          /\ sum' = (IF seen[t] = None THEN 1 ELSE seen[t] + 1)
          /\ pc' = [pc EXCEPT ![t] = "max"] /\ lock' = (IF Locked THEN None ELSE lock) /\ UNCHANGED <<top, seen, left, free>>
Value(t) == (Times - left[t]) + 1
Raise(t) == /\ pc[t] = "maxed"
            /\ top' = (IF seen[t] = None \/ Value(t) > seen[t] THEN Value(t) ELSE top)
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ pc' = [pc EXCEPT ![t] = IF left[t] = 1 THEN "done" ELSE "add"] /\ lock' = (IF Locked THEN None ELSE lock) /\ UNCHANGED <<sum, seen, free>>
MNext == \E t \in Threads : Take(t) \/ Find(t) \/ Add(t) \/ Raise(t)
MSpec == MInit /\ [][MNext]_<<sum, top, pc, seen, left, lock, free>>
Exact == (\A t \in Threads : pc[t] = "done") =>
           LET m == S!Raised(S!Added(<<>>, "x", Cardinality(Threads) * Times), "y", Times) IN sum = m["x"] /\ top = m["y"]
=============================================================================
