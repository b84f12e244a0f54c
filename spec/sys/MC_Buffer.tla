----------------------------- MODULE MC_Buffer ------------------------------
(* Every session of two handles over a store in memory and a file, with    *)
(* short writes of two letters and a line end.                             *)
EXTENDS Buffer
CONSTANTS Longest, Letters
Strings == UNION {[1..k -> Letters] : k \in 0..2}
Commands ==
  [op : {"wopen"}, k : {1, 2}, n : {3, 5}, f : {"text"}, g : {"mem", "file", "lent"}, i : {0, 1}]
  \cup [op : {"wopen"}, k : {1}, n : {5}, f : {"byte"}, g : {"file"}, i : {0}]
  \cup [op : {"ropen"}, k : {1, 2}, n : {3, 5, 6}, f : {"text"}, g : {"mem", "file"}]
  \cup [op : {"wstr"}, k : {1, 2}, x : Strings]
  \cup [op : {"seek"}, k : {1, 2}, n : {-1, 0, 2}, i : 0..2]
  \cup [op : {"close"}, k : {1, 2}, f : {"keep", "drop"}]
  \cup [op : {"rstr"}, k : {1, 2}, n : 0..2]
  \cup [op : {"rline", "rchar"}, k : {1, 2}]
MNext == \E c \in Commands : Enabled(c) /\ Effect(c)
MSpec == Init /\ [][MNext]_bvars
Short == \A s \in DOMAIN store : Len(store[s]) <= Longest

InPlace == \A k \in DOMAIN hand : hand[k].open =>
             /\ hand[k].pos >= 0
             /\ hand[k].pos <= Size(hand[k].no) + (IF hand[k].dir = "w" /\ hand[k].kind = "byte" THEN 3 ELSE 0)
             /\ hand[k].no \in DOMAIN store
Alone == \A s \in DOMAIN store : Writers(s) = {} \/ Cardinality(Users(s)) = 1
\* Only the bytes between the old and the new position of a writer change, apart from the gap before and from truncating on opening.
Frame == [][\A s \in DOMAIN store :
              \/ store'[s] = store[s]
              \/ \E k \in DOMAIN hand' : k \notin DOMAIN hand /\ hand'[k].no = s /\ store'[s] = <<>>
              \/ \E k \in DOMAIN hand : /\ hand[k].no = s /\ hand[k].dir = "w" /\ hand'[k].pos > hand[k].pos
                                        /\ Len(store'[s]) >= Len(store[s])
                                        /\ \A i \in 1..Len(store[s]) : i \in (hand[k].pos + 1)..hand'[k].pos \/ store'[s][i] = store[s][i]]_bvars
Sticky == [][\A k \in DOMAIN hand \cap DOMAIN hand' : hand[k].status # Ok => hand'[k].status # Ok]_bvars
\* A line is what lies between two line ends.
Lines == [][\A k \in DOMAIN hand \cap DOMAIN hand' :
              hand[k].dir = "r" /\ hand[k].open /\ hand'[k].open /\ LineLength(k) > 0 /\ hand'[k].pos = hand[k].pos + LineLength(k)
                => \A i \in (hand[k].pos + 1)..(hand'[k].pos - 1) : store[hand[k].no][i] # 10]_bvars
=============================================================================
