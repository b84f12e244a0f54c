-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* Images, their connected components, the objects that hold them, and the *)
(* pictures made of them.                                                  *)
(* A pixel is <<row, column>> from 0; a component is its pixels and its    *)
(* rectangle <<left, top, width, height>>.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES img,    \* number -> [h, w, c, v], v by row, column, channel
          multi,  \* number -> set of components
          one     \* number -> component
vars == <<img, multi, one>>
Init == img = <<>> /\ multi = <<>> /\ one = <<>>

With(f, k, v) == (k :> v) @@ f
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

---------------------------------------------------------------------------
(* Components                                                              *)
Pixels(h, w) == (0..(h - 1)) \X (0..(w - 1))
Near(p, q, n) == LET dy == p[1] - q[1]
                     dx == p[2] - q[2]
                 IN p # q /\ dy \in -1..1 /\ dx \in -1..1 /\ (n = 8 \/ dy = 0 \/ dx = 0)
RECURSIVE Reach(_, _, _, _)
Reach(S, new, A, n) == IF new = {} THEN S
                       ELSE LET more == TLCEval({q \in A \ S : \E p \in new : Near(p, q, n)}) IN Reach(S \cup more, more, A, n)
RECURSIVE Parts(_, _)
Parts(A, n) == IF A = {} THEN {}
               ELSE LET p == CHOOSE p \in A : TRUE
                        C == TLCEval(Reach({p}, {p}, A, n))
                    IN {C} \cup Parts(A \ C, n)
Bounds(P) == LET ys == {p[1] : p \in P}
                 xs == {p[2] : p \in P}
             IN <<MinOf(xs), MinOf(ys), MaxOf(xs) - MinOf(xs) + 1, MaxOf(ys) - MinOf(ys) + 1>>
Comp(P) == [p |-> P, r |-> Bounds(P)]
Empty == [p |-> {}, r |-> <<0, 0, 0, 0>>]

At(m, p, ch) == m.v[(p[1] * m.w + p[2]) * m.c + ch + 1]
IsValue(m, p, v) == \A ch \in 0..(m.c - 1) : At(m, p, ch) = v[ch + 1]
\* What takes part: f is the kind of mask, y its image (1 takes part), rectangle or value.
Active(m, f, y) ==
  CASE f = "null" -> Pixels(m.h, m.w)
    [] f = "rect" -> {p \in Pixels(m.h, m.w) : p[2] >= y[1] /\ p[2] < y[1] + y[3] /\ p[1] >= y[2] /\ p[1] < y[2] + y[4]}
    [] f = "image" -> {p \in Pixels(m.h, m.w) : y[p[1] * m.w + p[2] + 1] = 1}
    [] f = "value" -> {p \in Pixels(m.h, m.w) : ~IsValue(m, p, y)}
MaskFits(m, f, y) ==
  CASE f = "null" -> TRUE
    [] f = "rect" -> Len(y) = 4 /\ y[1] >= 0 /\ y[2] >= 0 /\ y[3] >= 1 /\ y[4] >= 1 /\ y[1] + y[3] <= m.w /\ y[2] + y[4] <= m.h
    [] f = "image" -> Len(y) = m.h * m.w
    [] f = "value" -> Len(y) = 4

---------------------------------------------------------------------------
\* c.g: the kind of element the extraction is made for.
Fits(m, g) == CASE g = "helper" -> m.d = "u8" [] g = "u8" -> m.d = "u8" /\ m.c = 1 [] g = "i32" -> m.d = "i32" /\ m.c = 1 [] g = "u8x3" -> m.d = "u8" /\ m.c = 3
Start(c) == <<c.z[1], c.z[2]>>
PixelList(z) == {<<z[2 * i - 1], z[2 * i]>> : i \in 1..(Len(z) \div 2)}
Everything(k) == UNION {c.p : c \in multi[k]}
Inside(P, r) == \A p \in P : p[2] >= r[1] /\ p[2] < r[1] + r[3] /\ p[1] >= r[2] /\ p[1] < r[2] + r[4]
Enabled(c) ==
  CASE c.op = "image" -> Len(c.x) = c.y[1] * c.y[2] * c.y[3] /\ Len(c.x) > 0
    [] c.op = "label" -> c.i \in DOMAIN img /\ c.n \in {4, 8} /\ Fits(img[c.i], c.g) /\ MaskFits(img[c.i], c.f, c.y) /\ (c.g = "helper" => c.f = "value")
    [] c.op = "single" -> /\ c.i \in DOMAIN img /\ c.n \in {4, 8} /\ c.g # "helper" /\ Fits(img[c.i], c.g) /\ MaskFits(img[c.i], c.f, c.y)
                          /\ Len(c.z) = 2 /\ Start(c) \in Active(img[c.i], c.f, c.y)
    [] c.op = "make" -> Cardinality(PixelList(c.z)) * 2 = Len(c.z)
    [] c.op = "copy" -> c.i \in DOMAIN one /\ (c.f = "construct" => c.k \notin DOMAIN one)
    [] c.op = "drop" -> c.k \in DOMAIN one
    [] c.op = "release" -> c.k \in DOMAIN one
    [] c.op = "copies" -> c.i \in DOMAIN multi /\ (c.f = "construct" => c.k \notin DOMAIN multi)
    [] c.op = "drops" -> c.k \in DOMAIN multi
    [] c.op = "picture" -> c.k \in DOMAIN multi /\ Len(c.y) = 4 /\ c.y[3] >= 1 /\ c.y[4] >= 1 /\ Inside(Everything(c.k), c.y) /\ Len(c.x) = 4 /\ Len(c.z) = 4
    [] c.op = "chess" -> c.k >= 1 /\ c.n >= 1 /\ c.i >= 1 /\ c.y[1] \in 1..4
    [] c.op = "levels" -> c.k \in DOMAIN multi /\ c.y[1] >= 1 /\ c.y[2] >= 1 /\ Inside(Everything(c.k), <<0, 0, c.y[2], c.y[1]>>)
    [] c.op = "inside" -> Len(c.y) = 4
Labels(c) == {Comp(P) : P \in Parts(Active(img[c.i], c.f, c.y), c.n)}
Effect(c) ==
  CASE c.op = "image" -> img' = With(img, c.k, [h |-> c.y[1], w |-> c.y[2], c |-> c.y[3], d |-> c.f, v |-> c.x]) /\ UNCHANGED <<multi, one>>
    [] c.op = "label" -> multi' = With(multi, c.k, Labels(c)) /\ UNCHANGED <<img, one>>
    [] c.op = "single" -> /\ LET A == Active(img[c.i], c.f, c.y) IN one' = With(one, c.k, Comp(Reach({Start(c)}, {Start(c)}, A, c.n)))
                          /\ UNCHANGED <<img, multi>>
    [] c.op = "make" -> one' = With(one, c.k, IF c.z = <<>> THEN Empty ELSE Comp(PixelList(c.z))) /\ UNCHANGED <<img, multi>>
    [] c.op = "copy" -> one' = With(one, c.k, one[c.i]) /\ UNCHANGED <<img, multi>>
    [] c.op = "drop" -> one' = Without(one, c.k) /\ UNCHANGED <<img, multi>>
    [] c.op = "release" -> one' = With(one, c.k, [one[c.k] EXCEPT !.p = {}]) /\ UNCHANGED <<img, multi>>
    [] c.op = "copies" -> multi' = With(multi, c.k, multi[c.i]) /\ UNCHANGED <<img, one>>
    [] c.op = "drops" -> multi' = Without(multi, c.k) /\ UNCHANGED <<img, one>>
    [] OTHER -> UNCHANGED vars

---------------------------------------------------------------------------
(* Answers: a component is its size, its rectangle and x, y of each pixel. *)
RECURSIVE Items(_, _)
Items(r, i) == IF i > Len(r) THEN <<>> ELSE <<SubSeq(r, i, i + 4 + 2 * r[i])>> \o Items(r, i + 5 + 2 * r[i])
Shown(it) == [p |-> {<<it[5 + 2 * j], it[4 + 2 * j]>> : j \in 1..it[1]}, r |-> SubSeq(it, 2, 5)]
Whole(it) == Cardinality(Shown(it).p) = it[1]
IsMulti(r, S) == LET it == TLCEval(Items(r, 1))
                 IN Len(it) = Cardinality(S) /\ (\A i \in DOMAIN it : Whole(it[i])) /\ {Shown(it[i]) : i \in DOMAIN it} = S
IsOne(r, c) == LET it == TLCEval(Items(r, 1)) IN Len(it) = 1 /\ Whole(it[1]) /\ (Shown(it[1]) = c)
\* All objects: kind (1 several, 2 one), number, count of numbers, numbers.
RECURSIVE Objects(_, _)
Objects(t, i) == IF i > Len(t) THEN <<>> ELSE <<[kind |-> t[i], k |-> t[i + 1], r |-> SubSeq(t, i + 3, i + 2 + t[i + 2])]>> \o Objects(t, i + 3 + t[i + 2])
AllThere(t) == LET ob == TLCEval(Objects(t, 1))
               IN /\ {ob[i].k : i \in {i \in DOMAIN ob : ob[i].kind = 1}} = DOMAIN multi'
                  /\ {ob[i].k : i \in {i \in DOMAIN ob : ob[i].kind = 2}} = DOMAIN one'
                  /\ \A i \in DOMAIN ob : IF ob[i].kind = 1 THEN IsMulti(ob[i].r, multi'[ob[i].k]) ELSE IsOne(ob[i].r, one'[ob[i].k])
\* A picture: height, width, channels, elements.
IsPicture(r, h, w, ch, V(_, _)) ==
  /\ SubSeq(r, 1, 3) = <<h, w, ch>> /\ Len(r) = 3 + h * w * ch
  /\ \A p \in Pixels(h, w) : \A k \in 0..(ch - 1) : r[4 + (p[1] * w + p[2]) * ch + k] = V(p, k)
Painted(c) == LET E == TLCEval(Everything(c.k))
              IN [p \in Pixels(c.y[4], c.y[3]) |-> <<p[1] + c.y[2], p[2] + c.y[1]>> \in E]
\* The components in the order the driver found them carry the levels of z (taken again from the start when used up);
\* a pixel shows the most extreme level of its components and which of them has it.
LevelOf(c, j) == c.z[((j - 1) % Len(c.z)) + 1]
IsLevels(e) ==
  LET it == TLCEval(Items(e.o, 1))
      has == TLCEval([j \in DOMAIN it |-> Shown(it[j]).p])
      none == IF e.i = 1 THEN 255 ELSE 0
      W(p) == {j \in DOMAIN it : p \in has[j] /\ LevelOf(e, j) # none}
  IN /\ IsMulti(e.o, multi[e.k])
     /\ IsPicture(e.r, e.y[1], e.y[2], 1, LAMBDA p, k : IF W(p) = {} THEN none ELSE LET S == {LevelOf(e, j) : j \in W(p)} IN IF e.i = 1 THEN MinOf(S) ELSE MaxOf(S))
     /\ IsPicture(e.s, e.y[1], e.y[2], 1, LAMBDA p, k : IF W(p) = {} THEN -1
            ELSE LET S == {LevelOf(e, j) : j \in W(p)}
                     b == IF e.i = 1 THEN MinOf(S) ELSE MaxOf(S)
                 IN MinOf({j \in W(p) : LevelOf(e, j) = b}) - 1)
Flag(b) == IF b THEN 1 ELSE 0
Answer(e) ==
  /\ AllThere(e.t)
  /\ e.changed = 0
  /\ CASE e.op = "picture" -> LET on == TLCEval(Painted(e)) IN IsPicture(e.r, e.y[4], e.y[3], IF e.i = 1 THEN 1 ELSE 3, LAMBDA p, k : IF on[p] THEN e.x[k + 1] ELSE e.z[k + 1])
       [] e.op = "chess" -> IsPicture(e.r, e.k, e.n, e.y[1], LAMBDA p, k : IF (((p[1] \div e.i) + (p[2] \div e.i)) % 2) = 0 THEN 0 ELSE 255)
       [] e.op = "levels" -> IsLevels(e)
       [] e.op = "inside" -> LET in == e.y[3] >= 0 /\ e.y[4] >= 0 /\ e.y[3] < e.y[1] /\ e.y[4] < e.y[2]
                             IN e.r = <<Flag(in), Flag(in /\ (e.y[3] \in {0, e.y[1] - 1} \/ e.y[4] \in {0, e.y[2] - 1}))>>
       [] OTHER -> TRUE
Do(e) == Enabled(e) /\ Effect(e) /\ Answer(e)
=============================================================================
