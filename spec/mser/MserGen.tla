------------------------------ MODULE MserGen ------------------------------
(***************************************************************************)
(* Generates session plans: random behaviours of Mser (TLC -simulate) with *)
(* images and parameter choices left abstract (numbers that the executor   *)
(* turns into concrete ones).  Only the enabling conditions of Mser's      *)
(* actions matter here; what an extraction yields is judged afterwards,    *)
(* when the recorded trace is checked against Mser itself.                 *)
(***************************************************************************)
EXTENDS Mser, Json
CONSTANTS Algs, Handles, Slots, Images, Params, Depth, MaxInst

VARIABLE hist
gvars == <<inst, res, hist>>

Log(e) == hist' = Append(hist, e)
Unknown == <<{}, {}>>

GInit == Init /\ hist = <<>>

GNew == \E h \in Handles, a \in Algs :
  Cardinality(DOMAIN inst) < MaxInst /\ New(h, a) /\ Log([op |-> "new", h |-> h, alg |-> a])
GDel == \E h \in Handles : Len(hist) > Depth \div 2 /\ Delete(h) /\ Log([op |-> "del", h |-> h])
GClear == \E h \in Handles : ClearCache(h) /\ Log([op |-> "clear", h |-> h])
GSet == \E h \in Handles, p \in Params :
  h \in DOMAIN inst /\ inst' = [inst EXCEPT ![h].prm.min = p] /\ UNCHANGED res /\ Log([op |-> "param", h |-> h, p |-> p])
GExt == \E h \in Handles, r \in Slots, i \in Images :
  h \in DOMAIN inst /\ Store(r, Unknown) /\ Log([op |-> "ext", h |-> h, r |-> r, i |-> i])
GCopy == \E a, b \in Slots : a # b /\ Copy(a, b) /\ Log([op |-> IF (a + b) % 2 = 0 THEN "copy" ELSE "assign", a |-> a, b |-> b])
GSelf == \E a \in Slots : Copy(a, a) /\ Log([op |-> "assign", a |-> a, b |-> a])
GDrop == \E a \in Slots : Drop(a) /\ Log([op |-> "drop", r |-> a])
GObs == \E a \in Slots : Observe(a, Unknown) /\ Log([op |-> "res", r |-> a])

GNext == GNew \/ GDel \/ GClear \/ GSet \/ GExt \/ GCopy \/ GSelf \/ GDrop \/ GObs
GSpec == GInit /\ [][GNext]_gvars

Emit == Len(hist) = Depth => PrintT("PLAN " \o ToJson(hist))
=============================================================================
