------------------------------ MODULE MC_Edges ------------------------------
(***************************************************************************)
(* Tracking edges as the code does (a scan that pushes a strong candidate  *)
(* unless its left neighbour was pushed or counts as pushed, or the pixel  *)
(* above was, then a stack) for every placement of weak and strong         *)
(* candidates, against the definition.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H, W
VARIABLES weak, strong, at, flag, stack, map
E == INSTANCE Edges WITH img <- <<>>, det <- <<>>
P == E!Pixels(H, W)
MInit == weak = {} /\ strong = {} /\ at = -1 /\ flag = FALSE /\ stack = <<>> /\ map = <<>>
Choose == at = -1 /\ at' = 0 /\ (\E f \in [P -> 0..2] : weak' = {p \in P : f[p] > 0} /\ strong' = {p \in P : f[p] = 2})
          /\ map' = [p \in P |-> 1] /\ UNCHANGED <<flag, stack>>
Here == <<at \div W, at % W>>
Above == <<Here[1] - 1, Here[2]>>
Scan == /\ at \in 0..(H * W - 1) /\ at' = at + 1 /\ UNCHANGED <<weak, strong>>
        /\ LET f == flag /\ Here[2] # 0
           IN IF Here \notin weak THEN flag' = FALSE /\ map' = [map EXCEPT ![Here] = 1] /\ UNCHANGED stack
              ELSE IF ~f /\ Here \in strong /\ (Above \in P => map[Above] # 2)
                   THEN flag' = TRUE /\ map' = [map EXCEPT ![Here] = 2] /\ stack' = Append(stack, Here)
                   ELSE flag' = f /\ map' = [map EXCEPT ![Here] = 0] /\ UNCHANGED stack
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Track == /\ at = H * W /\ stack # <<>> /\ UNCHANGED <<weak, strong, at, flag>>
         /\ LET p == stack[Len(stack)]
                S == {q \in P : E!Near(p, q) /\ map[q] = 0}
            IN stack' = SubSeq(stack, 1, Len(stack) - 1) \o Listed(S) /\ map' = [q \in P |-> IF q \in S THEN 2 ELSE map[q]]
MNext == Choose \/ Scan \/ Track
MSpec == MInit /\ [][MNext]_<<weak, strong, at, flag, stack, map>>
Right == (at = H * W /\ stack = <<>>) => {p \in P : map[p] = 2} = E!Reach(strong, strong, weak)
Few == Len(stack) <= H * W
=============================================================================
