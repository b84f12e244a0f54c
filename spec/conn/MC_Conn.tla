------------------------------ MODULE MC_Conn -------------------------------
(***************************************************************************)
(* The extraction step by step (raster scan, a stack, visited marks in a   *)
(* bordered copy) on every small image, against the definition.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H, W
VARIABLES on, n, at, stack, seen, cur, found
C == INSTANCE Conn WITH img <- <<>>, multi <- <<>>, one <- <<>>
RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq_(S \ {x})
MInit == on = {} /\ n = 0 /\ at = -1 /\ stack = <<>> /\ seen = {} /\ cur = {} /\ found = {}
Choose == /\ at = -1 /\ at' = 0 /\ on' \in SUBSET C!Pixels(H, W) /\ n' \in {4, 8} /\ UNCHANGED <<stack, seen, cur, found>>
Here == <<at \div W, at % W>>
Busy == stack # <<>>
Scan == /\ at \in 0..(H * W - 1) /\ ~Busy
        /\ IF Here \in on /\ Here \notin seen
           THEN stack' = <<Here>> /\ seen' = seen \cup {Here} /\ cur' = {Here} /\ UNCHANGED <<at, found>>
           ELSE at' = at + 1 /\ UNCHANGED <<stack, seen, cur, found>>
        /\ UNCHANGED <<on, n>>
Visit == /\ Busy
         /\ LET p == stack[Len(stack)]
                S == {q \in on \ seen : C!Near(p, q, n)}
                rest == SubSeq(stack, 1, Len(stack) - 1) \o SetToSeq_(S)
            IN /\ stack' = rest /\ seen' = seen \cup S /\ cur' = cur \cup S
               /\ found' = (IF rest = <<>> THEN found \cup {cur \cup S} ELSE found)
         /\ UNCHANGED <<on, n, at>>
MNext == Choose \/ Scan \/ Visit
MSpec == MInit /\ [][MNext]_<<on, n, at, stack, seen, cur, found>>
Right == at = H * W => found = C!Parts(on, n)
Disjoint == \A A, B \in found : A # B => A \cap B = {} /\ \A p \in A, q \in B : ~C!Near(p, q, n)
=============================================================================
