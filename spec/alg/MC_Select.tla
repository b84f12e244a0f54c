----------------------------- MODULE MC_Select -----------------------------
(***************************************************************************)
(* Streaming selection with a bounded heap, step by step: a value is put   *)
(* in, the heap is repaired by single exchanges, and whenever it is at     *)
(* rest it holds exactly the k best values seen.  Then heap sort of what   *)
(* is left: the root is exchanged with the last of the unsorted part and   *)
(* the rest repaired, until the whole is sorted.                           *)
(***************************************************************************)
EXTENDS Alg
CONSTANTS K, Values, Length, Big
VARIABLES heap, seen, at, size, phase    \* at: where a repair stands (0: at rest); size: how much of the heap is unsorted
svars == <<heap, seen, at, size, phase>>

\* a may stand above b
Above(a, b) == IF Big THEN a <= b ELSE a >= b
Child(i, m) == LET l == 2 * i r == 2 * i + 1
               IN IF l > m THEN 0 ELSE IF r <= m /\ ~Above(heap[l], heap[r]) THEN r ELSE l
Swapped(h, i, j) == [h EXCEPT ![i] = h[j], ![j] = h[i]]

SInit == Init /\ heap = <<>> /\ seen = <<>> /\ at = 0 /\ size = 0 /\ phase = "fill"
\* Until there are k values they are only collected; then the heap is built from its last parent upwards.
Collect(v) == phase = "fill" /\ Len(heap) < K /\ Len(seen) < Length
              /\ heap' = Append(heap, v) /\ seen' = Append(seen, v) /\ size' = Len(heap) + 1
              /\ IF Len(heap) + 1 = K /\ K >= 2 THEN phase' = "build" /\ at' = K \div 2 ELSE phase' = (IF Len(heap) + 1 = K THEN "stream" ELSE "fill") /\ at' = 0
\* Building: `at` is the parent under repair.  One whole sift-down per step.
RECURSIVE Sift(_, _, _)
Sift(h, i, m) == LET l == 2 * i r == 2 * i + 1
                     c == IF l > m THEN 0 ELSE IF r <= m /\ ~Above(h[l], h[r]) THEN r ELSE l
                 IN IF c = 0 \/ Above(h[i], h[c]) THEN h ELSE Sift(Swapped(h, i, c), c, m)
Build == phase = "build" /\ heap' = Sift(heap, at, K) /\ at' = at - 1 /\ phase' = (IF at = 1 THEN "stream" ELSE "build") /\ UNCHANGED <<seen, size>>
Offer(v) == phase = "stream" /\ at = 0 /\ Len(seen) < Length /\ seen' = Append(seen, v) /\ UNCHANGED <<size, phase>>
            /\ IF ~Above(v, heap[1]) THEN heap' = [heap EXCEPT ![1] = v] /\ at' = 1 ELSE UNCHANGED <<heap, at>>
Repair == phase \in {"stream", "sort"} /\ at > 0 /\ UNCHANGED <<seen, size, phase>>
          /\ LET c == Child(at, size) IN IF c = 0 \/ Above(heap[at], heap[c]) THEN at' = 0 /\ UNCHANGED heap ELSE heap' = Swapped(heap, at, c) /\ at' = c
Close == phase = "stream" /\ at = 0 /\ phase' = "sort" /\ UNCHANGED <<heap, seen, at, size>>
Extract == phase = "sort" /\ at = 0 /\ size > 1 /\ heap' = Swapped(heap, 1, size) /\ size' = size - 1 /\ at' = (IF size > 2 THEN 1 ELSE 0) /\ UNCHANGED <<seen, phase>>
SNext == (\/ \E v \in Values : Collect(v) \/ Offer(v)
          \/ Build \/ Repair \/ Close \/ Extract) /\ UNCHANGED avars
SSpec == SInit /\ [][SNext]_<<svars, avars>>

HeapShape == phase = "stream" /\ at = 0 => \A i \in 2..Len(heap) : Above(heap[i \div 2], heap[i])
HoldsTheBest == phase # "fill" => SameBag(heap, Best(seen, K, Big))
Collected == phase = "fill" => heap = seen
\* The sorted part is at the end, best last moved to the front.
SortedPart == phase = "sort" => \A i \in size..(Len(heap) - 1) : i > size => Above(heap[i + 1], heap[i])
Sorted == phase = "sort" /\ size = 1 /\ at = 0 => heap = Best(seen, K, Big)
=============================================================================
