----------------------------- MODULE MC_Dynamic -----------------------------
(***************************************************************************)
(* The recurrences behind the dynamic programs, one element per step, for  *)
(* every input of a small size: the best slice, the longest common         *)
(* substring and the 0-1 bag reach what their definitions in Alg demand.   *)
(***************************************************************************)
EXTENDS Alg
CONSTANTS Vals, N, Letters, M, Caps
VARIABLES kind, a, b, cap, i, acc, best
dvars == <<kind, a, b, cap, i, acc, best>>

SliceVals == -2..2
Seqs(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
\* slice: acc = <<sum, begin, length>> of the best slice ending at i, best likewise over all
\* lcs: acc = row of lengths of common suffixes of a[..i] and b[..j]; best = <<length, begin in a, begin in b>>
\* bag: acc = best value for every capacity 0..cap with the first i elements
DInit ==
  /\ Init /\ i = 0 /\ b = <<>> /\ cap = 0 /\ best = <<0, 0, 0>>
  /\ \/ kind = "slice" /\ a \in Seqs(Vals, 1, N) /\ acc = <<0, 1, 0>>
     \/ kind = "lcs" /\ a \in Seqs(Letters, 1, M) /\ acc = <<>>
     \/ kind = "bag" /\ a \in Seqs(0..2, 1, 3) /\ acc = <<>>
Choose == /\ i = 0 /\ b = <<>> /\ kind # "slice"
          /\ IF kind = "lcs" THEN b' \in Seqs(Letters, 1, M) /\ cap' = 0 /\ acc' = [j \in 1..Len(b') |-> 0]
             ELSE b' \in [1..Len(a) -> 0..2] /\ cap' \in Caps /\ acc' = [c \in 1..(cap' + 1) |-> 0]
          /\ UNCHANGED <<kind, a, i, best>>
Step ==
  /\ i < Len(a) /\ (kind = "slice" \/ b # <<>>) /\ i' = i + 1 /\ UNCHANGED <<kind, a, b, cap>>
  /\ CASE kind = "slice" ->
            LET v == a[i + 1]
                nx == IF i = 0 \/ v > acc[1] + v THEN <<v, i + 1, 1>> ELSE <<acc[1] + v, acc[2], acc[3] + 1>>
            IN acc' = nx /\ best' = (IF i = 0 \/ nx[1] > best[1] THEN nx ELSE best)
       [] kind = "lcs" ->
            LET row == [j \in 1..Len(b) |-> IF a[i + 1] = b[j] THEN (IF j > 1 THEN acc[j - 1] ELSE 0) + 1 ELSE 0]
                m == MaxOf(RangeOf(row)) j == CHOOSE x \in 1..Len(b) : row[x] = m
            IN acc' = row /\ best' = (IF m > best[1] THEN <<m, i + 1 - m, j - m>> ELSE best)
       [] kind = "bag" ->
            /\ acc' = [c \in 1..(cap + 1) |-> IF a[i + 1] > c - 1 THEN acc[c] ELSE LET t == acc[c - a[i + 1]] + b[i + 1] IN IF t > acc[c] THEN t ELSE acc[c]]
            /\ UNCHANGED best
DNext == (Choose \/ Step) /\ UNCHANGED avars
DSpec == DInit /\ [][DNext]_<<dvars, avars>>

Done == i = Len(a)
SliceRight == kind = "slice" /\ Done => MaxSliceOk([x |-> a, r |-> best[1], q |-> <<best[2] - 1, best[3]>>])
LcsRight == kind = "lcs" /\ Done => /\ best[1] = LongestCommon(a, b)
                                    /\ best[1] > 0 => <<best[2], best[3]>> \in Common(a, b, best[1])
BagRight == kind = "bag" /\ i > 0 => acc[cap + 1] = BestBag(SubSeq(a, 1, i), SubSeq(b, 1, i), cap)
=============================================================================
