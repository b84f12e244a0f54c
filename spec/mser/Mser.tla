------------------------------- MODULE Mser -------------------------------
(***************************************************************************)
(* Extraction sessions: what a program that uses the MSER classes can see. *)
(*                                                                         *)
(* State                                                                   *)
(*   inst  the extractor instances: handle |-> [alg, prm, threads, rec]    *)
(*   res   the result objects: slot |-> <<dark, bright>>, each a set of    *)
(*         regions [g, pix, rect], with the geometry of their image        *)
(*                                                                         *)
(* Actions are the public calls, one action per call, taken when the call  *)
(* returns.  The specification is deliberately free of any internal state  *)
(* of an instance besides its parameters: whatever an instance did before  *)
(* must not be visible.  Equally, a result object owns its regions: no     *)
(* action on an instance or another object changes them.                   *)
(***************************************************************************)
EXTENDS MserDefinition

VARIABLES inst, res

vars == <<inst, res>>

Reset == inst' = <<>> /\ res' = <<>>

Init == inst = <<>> /\ res = <<>>

\* f extended or overridden at x (also on the empty function <<>>)
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]

New(h, alg) ==
  /\ h \notin DOMAIN inst
  /\ inst' = Put(inst, h, [alg |-> alg, prm |-> DefaultParams, threads |-> 4, rec |-> 20])
  /\ UNCHANGED res

Delete(h) == h \in DOMAIN inst /\ inst' = Without(inst, h) /\ UNCHANGED res

ClearCache(h) == h \in DOMAIN inst /\ UNCHANGED vars

Set(h, k, v) ==
  /\ h \in DOMAIN inst
  /\ inst' = [inst EXCEPT ![h] =
       CASE k = "delta"   -> [@ EXCEPT !.prm.delta = v[1]]
         [] k = "dup"     -> [@ EXCEPT !.prm.dup = v]
         [] k = "stable"  -> [@ EXCEPT !.prm.stable = v]
         [] k = "nms"     -> [@ EXCEPT !.prm.nms = v]
         [] k = "conn"    -> [@ EXCEPT !.prm.conn = v[1]]
         [] k = "size"    -> [@ EXCEPT !.prm.min = v[1], !.prm.max = <<v[2], v[3]>>]
         [] k = "enable"  -> [@ EXCEPT !.prm.dark = (v[1] = 1), !.prm.bright = (v[2] = 1)]
         [] k = "threads" -> [@ EXCEPT !.threads = v[1]]
         [] k = "rec"     -> [@ EXCEPT !.rec = v[1]]]
  /\ UNCHANGED res

\* The image an extraction works on: masked pixels are lifted to level 256.
MaskedImage(px, mask) ==
  CASE mask.kind = "none"  -> px
    [] mask.kind = "image" -> [p \in DOMAIN px |-> IF mask.px[p] = 0 THEN Masked ELSE px[p]]
    [] mask.kind = "value" -> [p \in DOMAIN px |-> IF mask.v = px[p] THEN Masked ELSE px[p]]

\* Only the linked-list algorithm looks at masks.
Masking(alg) == alg = "ll"

AdjacencyOf(i, R, C) == Adjacency(R, C, i.prm.conn)

Expected(i, px, R, C, mask, adj) ==
  Extraction(TLCEval(IF Masking(i.alg) THEN MaskedImage(px, mask) ELSE px), R, C, TLCEval(adj), i.prm)

\* x: the extraction's outcome, <<[ambiguous, regions], [ambiguous, regions]>>; got: what was reported.
Explains(x, got) == \A k \in 1..2 : x[k].ambiguous \/ x[k].regions = got[k]

Justified(h, R, C, px, mask, got) ==
  h \in DOMAIN inst /\ Explains(Expected(inst[h], px, R, C, mask, AdjacencyOf(inst[h], R, C)), got)

Store(r, got) == res' = Put(res, r, got) /\ UNCHANGED inst

Extract(h, r, R, C, px, mask, got) == Justified(h, R, C, px, mask, got) /\ Store(r, got)

Copy(a, b) == a \in DOMAIN res /\ res' = Put(res, b, res[a]) /\ UNCHANGED inst

Drop(r) == r \in DOMAIN res /\ res' = Without(res, r) /\ UNCHANGED inst

Observe(r, got) == r \in DOMAIN res /\ res[r] = got /\ UNCHANGED vars

(***************************************************************************)
(* image_from_mser: the region painted into the smallest centred square-   *)
(* ish image around its rectangle (foreground 0 on background 255).        *)
(***************************************************************************)
Rendered(region, C) ==
  LET w == region.rect[3]
      h == region.rect[4]
      eh == IF w > h THEN (w - h) \div 2 ELSE 0
      ew == IF h > w THEN (h - w) \div 2 ELSE 0
      rows == h + 2 * eh
      cols == w + 2 * ew
      ink == {(Row(C, p) - region.rect[2] + eh) * cols + (Col(C, p) - region.rect[1] + ew) + 1 : p \in region.pix}
  IN [rows |-> rows, cols |-> cols, px |-> [q \in 1..(rows * cols) |-> IF q \in ink THEN 0 ELSE 255]]
=============================================================================
