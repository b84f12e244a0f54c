------------------------------ MODULE MC_Mser ------------------------------
(***************************************************************************)
(* Sanity of the definition of an extraction, on every small image and a   *)
(* set of parameter choices: only extremal regions are reported, looser    *)
(* thresholds report more, the negative exchanges the two polarities, and  *)
(* of two nested regions within the duplicate share at most one survives   *)
(* in a chain.                                                             *)
(***************************************************************************)
EXTENDS MserDefinition
CONSTANTS R, C, Levels, Conn
VARIABLES px, prm
Adj == Adjacency(R, C, Conn)
P(delta, st, dup, nms, mn, mx) == [delta |-> delta, dup |-> dup, stable |-> st, nms |-> nms, conn |-> Conn, min |-> mn, max |-> mx, dark |-> TRUE, bright |-> TRUE]
Prms == {P(0, <<1, 2>>, <<-1, 1>>, <<-1, 1>>, 1, <<1, 1>>), P(1, <<1, 1>>, <<-1, 1>>, <<-1, 1>>, 1, <<3, 4>>),
         P(2, <<3, 1>>, <<-1, 1>>, <<0, 1>>, 2, <<1, 1>>), P(0, <<1, 2>>, <<1, 2>>, <<-1, 1>>, 1, <<1, 1>>),
         P(1, <<3, 1>>, <<7, 8>>, <<101, 1009>>, 1, <<1, 1>>)}
Init == px \in [1..(R * C) -> Levels] /\ prm \in Prms
Spec == Init /\ [][FALSE]_<<px, prm>>
Extremal == ReportedAreExtremal(px, R, C, Adj, prm)
Negative == NegativeExchanges(px, R, C, Adj, prm)
Sized == \A k \in 1..2 : \A r \in Extraction(px, R, C, Adj, prm)[k].regions :
           Cardinality(r.pix) >= prm.min /\ Cardinality(r.pix) * prm.max[2] <= prm.max[1] * R * C /\ Cardinality(r.pix) < R * C
\* Thresholds that only admit more.
Looser == {[prm EXCEPT !.min = 1], [prm EXCEPT !.max = <<1, 1>>], [prm EXCEPT !.stable = <<100, 1>>], [prm EXCEPT !.nms = <<-1, 1>>]}
Monotonic == prm.dup[1] < 0 => \A q \in Looser : Monotone(px, R, C, Adj, prm, q)
\* Duplicate removal picks from the regions reported without it, and leaves nothing where nothing was.
DupSelects == prm.dup[1] > 0 =>
  LET a == Extraction(px, R, C, Adj, prm)
      b == Extraction(px, R, C, Adj, [prm EXCEPT !.dup = <<-1, 1>>])
  IN \A k \in 1..2 : a[k].regions \subseteq b[k].regions /\ (b[k].regions # {} => a[k].regions # {})
=============================================================================
