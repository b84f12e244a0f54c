----------------------------- MODULE MC_Strings -----------------------------
(***************************************************************************)
(* The definitions of Strings against independent ones, for all short      *)
(* words: joining undoes splitting, replacing is splitting and joining,    *)
(* and the two rows of the distance give the cheapest script of edits.     *)
(* One state per triple of words and costs.                                *)
(***************************************************************************)
EXTENDS Strings
CONSTANTS Longest, Costs
VARIABLES a, b, c, cost
mvars == <<a, b, c, cost>>
Letters == {97, 65}
Words(m) == UNION {[1..k -> Letters] : k \in 0..m}
Triple == [ins : Costs, rep : Costs, del : Costs]
MInit == Init /\ a \in Words(2) /\ b = <<>> /\ c = <<>> /\ cost \in Triple
\* the words are chosen in steps, which TLC explores in parallel
Grow == Len(a) >= 2 /\ \E w \in Words(Longest - 2) : a' = a \o w /\ b' \in Words(Longest - 1) /\ c' \in Words(2)
MNext == Len(a) <= 2 /\ b = <<>> /\ c = <<>> /\ (Grow \/ (Len(a) < 2 /\ a' = a /\ b' \in Words(Longest - 1) /\ c' \in Words(2))) /\ UNCHANGED <<cost, text>>
MSpec == MInit /\ [][MNext]_<<text, mvars>>

\* The cheapest script, by trying every first step.
RECURSIVE Cheapest(_, _, _)
Cheapest(x, y, k) ==
  IF x = <<>> THEN Len(y) * k.ins
  ELSE IF y = <<>> THEN Len(x) * k.del
  ELSE LET d == Cheapest(Tail(x), y, k) + k.del
           i == Cheapest(x, Tail(y), k) + k.ins
           r == Cheapest(Tail(x), Tail(y), k) + (IF x[1] = y[1] THEN 0 ELSE k.rep)
       IN Min(Min(d, i), r)
Dist(x, y) == Distance(x, y, cost.ins, cost.rep, cost.del)
Contains(s, tag) == FirstAt(s, tag) # 0
DistanceIsCheapest == Dist(a, b) = Cheapest(a, b, cost)
ItselfIsFree == Dist(a, a) = 0
\* Turning back exchanges inserting and deleting.
Backwards == Dist(b, a) = Distance(a, b, cost.del, cost.rep, cost.ins)
OverC == Dist(a, b) <= Dist(a, c) + Dist(c, b)
SplitJoins == (a # <<>> /\ c # <<>>) => Join(Split(a, c), c) = a
NoTagLeft == (a # <<>> /\ c # <<>>) => \A i \in DOMAIN Split(a, c) : ~Contains(Split(a, c)[i], c)
ReplaceIsJoin == (a # <<>> /\ c # <<>>) => Replaced(a, b, c) = Join(Split(a, c), b)
ReplaceBySame == Replaced(a, c, c) = a
TrimOnce == TrimLeft(TrimLeft(a, 97), 97) = TrimLeft(a, 97)
CaseBlind == Upper(Lower(a)) = Upper(a) /\ Lower(Upper(a)) = Lower(a)
=============================================================================
