-------------------------- MODULE MserDefinition --------------------------
(***************************************************************************)
(* Which extremal regions an extraction reports.  The steps are those the  *)
(* library documents through its parameters (img_mser_base):               *)
(*   size      min point count, max share of the image                     *)
(*   stability variation over delta gray levels, at most `stable`          *)
(*   nms       a region yields to a parent or child one gray level away    *)
(*             whose variation is smaller by more than `nms`               *)
(*   dup       of a chain of nested regions whose sizes differ by at most  *)
(*             the share `dup`, only the middle one is kept                *)
(* Shares are rationals <<num, den>>, compared by cross multiplication, so *)
(* the specification is exact; the code works in f32, and a comparison too *)
(* close for f32 to decide makes the case Ambiguous (no claim is made).    *)
(***************************************************************************)
EXTENDS ComponentTree

Abs(x) == IF x < 0 THEN -x ELSE x

\* Parameters of a new instance (img_mser_base's constructor).
DefaultParams == [delta |-> 1, dup |-> <<1, 10>>, stable |-> <<1, 2>>, nms |-> <<0, 1>>, conn |-> 4,
                  min |-> 20, max |-> <<1, 4>>, dark |-> TRUE, bright |-> TRUE]

MaxPoint(prm, n) == (prm.max[1] * n) \div prm.max[2]

RECURSIVE TopWithin(_, _, _)
\* The largest region containing node i whose gray level is at most lim.
TopWithin(t, i, lim) ==
  IF t.par[i] # 0 /\ t.g[t.par[i]] <= lim THEN TopWithin(t, t.par[i], lim) ELSE i

\* Variation of node i as <<num, den>>; <<-1, 1>> when the image ends before delta levels are reached.
Variation(t, i, delta) ==
  LET a == TopWithin(t, i, t.g[i] + delta)
  IN IF t.par[a] = 0 /\ t.g[a] # t.g[i] + delta THEN <<-1, 1>>
     ELSE <<t.s[a] - t.s[i], t.s[i]>>

Exceeds(v, lim) == v[1] * lim[2] > lim[1] * v[2]
ExceedsAmbiguous(v, lim) ==
  LET e == v[1] * lim[2] - lim[1] * v[2]
  IN e > 0 /\ e <= (v[1] * lim[2]) \div 4000000

\* a - b > lim
LessStable(a, b, lim) == (a[1] * b[2] - b[1] * a[2]) * lim[2] > lim[1] * (a[2] * b[2])
LessStableAmbiguous(a, b, lim) ==
  LET m == IF a[1] * b[2] > b[1] * a[2] THEN a[1] * b[2] ELSE b[1] * a[2]
      e == (a[1] * b[2] - b[1] * a[2]) * lim[2] - lim[1] * (a[2] * b[2])
  IN IF lim[1] = 0 THEN e # 0 /\ Abs(e) <= (m * lim[2]) \div 4000000
     ELSE Abs(e) <= (m * lim[2]) \div 4000000

SizeOk(t, i, prm, maxp) == t.s[i] >= prm.min /\ t.s[i] <= maxp /\ t.par[i] # 0

\* Neighbours in the tree exactly one gray level apart, both with a variation.
NmsPairs(t, var) == {i \in 1..t.n : t.par[i] # 0 /\ t.g[t.par[i]] = t.g[i] + 1 /\ var[i][1] >= 0 /\ var[t.par[i]][1] >= 0}

Analysis(t, prm, n) ==
  LET maxp == MaxPoint(prm, n)
      var == TLCEval([i \in 1..t.n |-> IF prm.delta > 0 THEN Variation(t, i, prm.delta) ELSE <<0, 1>>])
      unstable == IF prm.delta > 0 THEN {i \in 1..t.n : Exceeds(var[i], prm.stable)} ELSE {}
      pairs == IF prm.delta > 0 /\ prm.nms[1] >= 0 THEN NmsPairs(t, var) ELSE {}
      inhibited == {t.par[i] : i \in {j \in pairs : LessStable(var[t.par[j]], var[j], prm.nms)}}
                   \cup {i \in pairs : LessStable(var[i], var[t.par[i]], prm.nms)}
      ambiguous == \/ prm.delta > 0 /\ \E i \in 1..t.n : ExceedsAmbiguous(var[i], prm.stable)
                   \/ \E i \in pairs : LessStableAmbiguous(var[i], var[t.par[i]], prm.nms)
  IN [keep |-> TLCEval([i \in 1..t.n |-> SizeOk(t, i, prm, maxp) /\ i \notin unstable /\ i \notin inhibited]),
      unstable |-> unstable, inhibited |-> inhibited, ambiguous |-> ambiguous, maxp |-> maxp]

(***************************************************************************)
(* Duplicate removal.  flag: "U" undecided, "I" not reported, "V" reported *)
(***************************************************************************)
TooDifferent(ps, s, dup) == (ps - s) * dup[2] > dup[1] * s

RECURSIVE ChainFrom(_, _, _, _, _, _)
\* The undecided or reported ancestors of q's children, nested around a region of size s within dup.
ChainFrom(t, flag, q, s, maxp, dup) ==
  IF q = 0 THEN <<>>
  ELSE IF t.s[q] > maxp \/ TooDifferent(t.s[q], s, dup) THEN <<>>
  ELSE (IF flag[q] # "I" THEN <<q>> ELSE <<>>) \o ChainFrom(t, flag, t.par[q], s, maxp, dup)

KeepMiddle(t, flag, i, maxp, dup) ==
  LET c1 == <<i>> \o ChainFrom(t, flag, t.par[i], t.s[i], maxp, dup)
      mid == Len(c1) \div 2 + 1
      c2 == IF mid = 1 THEN c1
            ELSE c1 \o ChainFrom(t, flag, t.par[c1[Len(c1)]], t.s[c1[mid]], maxp, dup)
  IN FoldLeftDomain(LAMBDA f, k : [f EXCEPT ![c2[k]] = IF k = mid THEN "V" ELSE "I"], flag, c2)

RemoveDuplicates(t, keep, maxp, dup) ==
  IF dup[1] <= 0 THEN {i \in 1..t.n : keep[i]}
  ELSE LET flag0 == TLCEval([i \in 1..t.n |-> IF keep[i] THEN "U" ELSE "I"])
           flag == FoldLeftDomain(LAMBDA f, i : IF f[i] = "U" THEN KeepMiddle(t, f, i, maxp, dup) ELSE f, flag0, flag0)
       IN {i \in 1..t.n : flag[i] = "V"}

Invert(px) == TLCEval([p \in DOMAIN px |-> IF px[p] = Masked THEN Masked ELSE 255 - px[p]])

\* The result for one channel of an image: a set of [g, pix, rect], or Ambiguous.
Channel(px, R, C, adj, prm, bright) ==
  LET t == Tree(IF bright THEN Invert(px) ELSE px, adj)
      a == Analysis(t, prm, R * C)
      sel == RemoveDuplicates(t, a.keep, a.maxp, prm.dup)
  IN [ambiguous |-> a.ambiguous,
      regions |-> {LET pix == Pixels(t, i)
                   IN [g |-> IF bright THEN 255 - t.g[i] ELSE t.g[i], pix |-> pix, rect |-> Rect(C, pix)] : i \in sel}]

Nothing == [ambiguous |-> FALSE, regions |-> {}]

\* The result of an extraction: <<regions from min (dark), regions from max (bright)>>.
Extraction(px, R, C, adj, prm) ==
  <<IF prm.dark THEN Channel(px, R, C, adj, prm, FALSE) ELSE Nothing,
    IF prm.bright THEN Channel(px, R, C, adj, prm, TRUE) ELSE Nothing>>

(***************************************************************************)
(* Sanity of the definition, checked on small images by MC_Mser.           *)
(***************************************************************************)
ReportedAreExtremal(px, R, C, adj, prm) ==
  LET x == Extraction(px, R, C, adj, prm)
      dark == ExtremalRegions(px, adj)
      bright == ExtremalRegions(Invert(px), adj)
  IN /\ \A r \in x[1].regions : [g |-> r.g, pix |-> r.pix] \in dark
     /\ \A r \in x[2].regions : [g |-> 255 - r.g, pix |-> r.pix] \in bright

\* Looser thresholds never lose a region when no duplicate removal or suppression interferes.
Monotone(px, R, C, adj, prm1, prm2) ==
  LET x == Extraction(px, R, C, adj, prm1)
      y == Extraction(px, R, C, adj, prm2)
  IN \A k \in 1..2 : x[k].regions \subseteq y[k].regions

\* Turning the image into its negative exchanges the two channels.
NegativeExchanges(px, R, C, adj, prm) ==
  LET x == Extraction(px, R, C, adj, prm)
      y == Extraction(Invert(px), R, C, adj, prm)
      neg(S) == {[r EXCEPT !.g = 255 - @] : r \in S}
  IN prm.dark /\ prm.bright => x[1].regions = neg(y[2].regions) /\ x[2].regions = neg(y[1].regions)
=============================================================================
