------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* The buffers of basicsys.  A store is a sequence of bytes, in memory or  *)
(* in a file; writers and readers of bytes and of text have a position in  *)
(* it and a status that keeps the last thing that went wrong.              *)
(*                                                                         *)
(* Stores 1, 2 are memory of bytes, 3, 4 text in memory, 5..8 files, and 9 *)
(* is a file in a directory that does not exist.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES store,   \* number -> bytes, for the stores there are
          hand     \* handle -> [dir, kind, via, no, pos, status, open]
bvars == <<store, hand>>

Init == store = <<>> /\ hand = <<>>

Ok == 0
Eof == 1
Broken == 2
FileStore(s) == s \in 5..9
Nowhere == 9
Size(s) == IF s \in DOMAIN store THEN Len(store[s]) ELSE 0
Width(t) == CASE t \in {"b8", "i8", "u8"} -> 1 [] t \in {"i16", "u16"} -> 2 [] t \in {"i32", "u32", "f32"} -> 4 [] t \in {"i64", "u64", "f64"} -> 8

\* Bytes after writing b at position p; what lies between the end and p is zero.
Written(s, p, b) ==
  IF b = <<>> THEN s
  ELSE [i \in 1..(IF p + Len(b) > Len(s) THEN p + Len(b) ELSE Len(s)) |->
          IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE IF i <= Len(s) THEN s[i] ELSE 0]
Part(s, p, m) == SubSeq(s, p + 1, p + m)

RECURSIVE Digits(_), Pow10(_), Number(_)
Digits(v) == IF v < 10 THEN <<48 + v>> ELSE Digits(v \div 10) \o <<48 + (v % 10)>>
Pow10(m) == IF m = 0 THEN 1 ELSE 10 * Pow10(m - 1)
Number(d) == IF d = <<>> THEN 0 ELSE Number(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
Decimal(v) == IF v < 0 THEN <<45>> \o Digits(-v) ELSE Digits(v)
Pad(d, m) == [i \in 1..m |-> IF i <= m - Len(d) THEN 48 ELSE d[i - (m - Len(d))]]
\* v eighths with so many decimal places
Eighths(v, places) ==
  LET a == IF v < 0 THEN -v ELSE v
      frac == Pad(Digits((a % 8) * 125), 3)
  IN (IF v < 0 THEN <<45>> ELSE <<>>) \o Digits(a \div 8) \o <<46>> \o frac \o [i \in 1..(places - 3) |-> 48]
True4 == <<116, 114, 117, 101>>
False5 == <<102, 97, 108, 115, 101>>
Text(t, v) ==
  CASE t = "b8" -> (IF v = 1 THEN True4 ELSE False5)
    [] t = "i8" -> <<v>>
    [] t = "f32" -> Eighths(v, 7)
    [] t = "f64" -> Eighths(v, 16)
    [] OTHER -> Decimal(v)
\* A decimal number of at most six digits and eighths: its value in eighths.
IsDigit(c) == c \in 48..57
IsNumber(d) ==
  LET u == IF d # <<>> /\ d[1] = 45 THEN Tail(d) ELSE d
      dots == {i \in DOMAIN u : u[i] = 46}
      dot == IF dots = {} THEN Len(u) + 1 ELSE CHOOSE i \in dots : \A j \in dots : i <= j
      whole == SubSeq(u, 1, dot - 1)
      frac == SubSeq(u, dot + 1, Len(u))
  IN /\ whole # <<>> /\ Len(whole) <= 6 /\ Len(frac) <= 7 /\ Cardinality(dots) <= 1
     /\ \A i \in DOMAIN whole : IsDigit(whole[i])
     /\ \A i \in DOMAIN frac : IsDigit(frac[i])
     /\ ((Number(frac) * 8) % Pow10(Len(frac))) = 0
ValueOf(d) ==
  LET u == IF d[1] = 45 THEN Tail(d) ELSE d
      dots == {i \in DOMAIN u : u[i] = 46}
      dot == IF dots = {} THEN Len(u) + 1 ELSE CHOOSE i \in dots : TRUE
      frac == SubSeq(u, dot + 1, Len(u))
      v == Number(SubSeq(u, 1, dot - 1)) * 8 + ((Number(frac) * 8) \div Pow10(Len(frac)))
  IN IF d[1] = 45 THEN -v ELSE v

---------------------------------------------------------------------------
\* A file lent to a buffer belongs to its owner until that gives it back (the handle is dropped).
Holds(h) == hand[h].open \/ hand[h].via = "lent"
Users(s) == {h \in DOMAIN hand : hand[h].no = s /\ Holds(h)}
Writers(s) == {h \in Users(s) : hand[h].dir = "w"}
\* Via "mem" the store is memory of the kind, via "file" a path, via "owned" and "lent" a FILE that is closed with the buffer or not.
Fits(kind, via, s) == IF via = "mem" THEN s \in (IF kind = "byte" THEN {1, 2} ELSE {3, 4}) ELSE FileStore(s)

WOpenable(c) == /\ c.f \in {"byte", "text"} /\ Fits(c.f, c.g, c.n)
                /\ c.k \notin DOMAIN hand /\ Users(c.n) = {}
                /\ c.g \in {"owned", "lent"} => c.n # Nowhere /\ c.i = 0
                /\ c.g = "mem" => c.i = 0
WOpen(c) ==
  LET keep == c.g = "mem" \/ c.i = 1
      old == IF c.n \in DOMAIN store THEN store[c.n] ELSE <<>>
      lost == c.n = Nowhere
  IN /\ store' = (IF lost THEN store ELSE (c.n :> (IF keep THEN old ELSE <<>>)) @@ store)
     /\ hand' = (c.k :> [dir |-> "w", kind |-> c.f, via |-> c.g, no |-> c.n, open |-> ~lost, status |-> IF lost THEN Broken ELSE Ok,
                         pos |-> IF c.i = 1 THEN Len(old) ELSE 0]) @@ hand
Live(c, d) == c.k \in DOMAIN hand /\ hand[c.k].dir = d /\ hand[c.k].open
Put(c, b) ==
  LET h == hand[c.k]
  IN /\ store' = [store EXCEPT ![h.no] = Written(@, h.pos, b)]
     /\ hand' = [hand EXCEPT ![c.k].pos = @ + Len(b)]
WBytes(c) == IF c.op = "w" /\ hand[c.k].kind = "text" THEN Text(c.f, c.n) ELSE c.x
WEnabled(c) ==
  /\ Live(c, "w") /\ Size(hand[c.k].no) < 120
  /\ CASE c.op = "w" -> (IF hand[c.k].kind = "byte" THEN Len(c.x) = Width(c.f) ELSE c.f = "b8" => c.n \in {0, 1})
       \* writing nothing behind the end may or may not fill the gap
       [] c.op = "wstr" -> c.x # <<>> \/ hand[c.k].pos <= Size(hand[c.k].no)
       [] c.op = "wbytes" -> hand[c.k].kind = "byte" /\ (c.x # <<>> \/ hand[c.k].pos <= Size(hand[c.k].no))
Target(c) == (CASE c.i = 0 -> 0 [] c.i = 1 -> hand[c.k].pos [] c.i = 2 -> Size(hand[c.k].no)) + c.n
SeekEnabled(c) ==
  /\ c.k \in DOMAIN hand /\ hand[c.k].open /\ c.i \in 0..2
  /\ Target(c) >= 0
  \* only bytes are written behind the end
  /\ Target(c) <= Size(hand[c.k].no) + (IF hand[c.k].dir = "w" /\ hand[c.k].kind = "byte" THEN 3 ELSE 0)
Seek(c) == hand' = [hand EXCEPT ![c.k].pos = Target(c)] /\ UNCHANGED store
Close(c) ==
  /\ hand' = (IF c.f = "drop" THEN [h \in DOMAIN hand \ {c.k} |-> hand[h]]
              ELSE [hand EXCEPT ![c.k].open = (hand[c.k].via = "mem")])
  /\ UNCHANGED store

ROpenable(c) == /\ c.f \in {"byte", "text"} /\ Fits(c.f, c.g, c.n)
                /\ c.k \notin DOMAIN hand /\ Writers(c.n) = {}
                /\ c.g # "file" => c.n \in DOMAIN store
ROpen(c) ==
  LET there == c.n \in DOMAIN store
  IN /\ hand' = (c.k :> [dir |-> "r", kind |-> c.f, via |-> c.g, no |-> c.n, open |-> there, status |-> IF there THEN Ok ELSE Broken, pos |-> 0]) @@ hand
     /\ UNCHANGED store
Left(k) == Size(hand[k].no) - hand[k].pos
\* Reading m bytes: all of them, or none and the status says so.
Take(c, m) ==
  IF m > Left(c.k) THEN [ok |-> FALSE, v |-> <<>>, h |-> [hand[c.k] EXCEPT !.status = Eof]]
  ELSE [ok |-> TRUE, v |-> Part(store[hand[c.k].no], hand[c.k].pos, m), h |-> [hand[c.k] EXCEPT !.pos = @ + m]]
LineLength(k) ==
  LET s == Part(store[hand[k].no], hand[k].pos, Left(k))
      ends == {i \in DOMAIN s : s[i] = 10}
  IN IF ends = {} THEN Len(s) ELSE CHOOSE i \in ends : \A j \in ends : i <= j
REnabled(c) ==
  /\ Live(c, "r")
  /\ CASE c.op = "r" -> hand[c.k].kind = "byte"
       [] c.op = "rbytes" -> hand[c.k].kind = "byte" /\ c.n >= 1
       [] c.op = "rstr" -> c.n >= 0
       [] c.op \in {"rchar", "rline"} -> hand[c.k].kind = "text"
       [] c.op = "rnum" -> hand[c.k].kind = "text" /\ c.n >= 1 /\ (c.n <= Left(c.k) => IsNumber(Part(store[hand[c.k].no], hand[c.k].pos, c.n)))
Taken(c) ==
  CASE c.op = "r" -> Take(c, Width(c.f))
    [] c.op \in {"rbytes", "rstr"} -> Take(c, c.n)
    [] c.op = "rchar" -> Take(c, 1)
    [] c.op = "rnum" -> LET t == Take(c, c.n) IN [t EXCEPT !.v = IF t.ok THEN <<ValueOf(t.v)>> ELSE <<0>>]
    [] c.op = "rline" ->
         (IF Left(c.k) = 0 THEN Take(c, 1)
          ELSE LET t == Take(c, LineLength(c.k)) IN [t EXCEPT !.v = IF t.v[Len(t.v)] = 10 THEN SubSeq(t.v, 1, Len(t.v) - 1) ELSE t.v])
Read(c) == hand' = [hand EXCEPT ![c.k] = Taken(c).h] /\ UNCHANGED store

Enabled(c) ==
  CASE c.op = "wopen" -> WOpenable(c)
    [] c.op \in {"w", "wstr", "wbytes"} -> WEnabled(c)
    [] c.op = "seek" -> SeekEnabled(c)
    [] c.op = "close" -> c.k \in DOMAIN hand
    [] c.op = "ropen" -> ROpenable(c)
    [] c.op \in {"r", "rstr", "rbytes", "rchar", "rline", "rnum"} -> REnabled(c)
    [] c.op = "dump" -> c.n \in DOMAIN store /\ Writers(c.n) = {}
    [] c.op = "count" -> TRUE
Effect(c) ==
  CASE c.op = "wopen" -> WOpen(c)
    [] c.op \in {"w", "wstr", "wbytes"} -> Put(c, WBytes(c))
    [] c.op = "seek" -> Seek(c)
    [] c.op = "close" -> Close(c)
    [] c.op = "ropen" -> ROpen(c)
    [] c.op \in {"r", "rstr", "rbytes", "rchar", "rline", "rnum"} -> Read(c)
    [] OTHER -> UNCHANGED bvars

\* What the code shows of a handle, and of the files the process holds open.
Shown(h) == <<IF h.open THEN h.pos ELSE -1, h.status, IF h.open THEN 0 ELSE 1>>
Held == Cardinality({k \in DOMAIN hand : Holds(k) /\ hand[k].via # "mem"})
Answer(e) ==
  CASE e.op = "dump" -> e.v = store[e.n]
    [] e.op = "count" -> e.v = <<Held>>
    [] e.op = "close" -> (IF e.f = "drop" THEN TRUE ELSE e.r = Shown(hand'[e.k]))
    [] e.op \in {"wopen", "w", "wstr", "wbytes"} -> e.r = Shown(hand'[e.k])
    [] OTHER ->
         LET h == hand'[e.k]
             size == Size(h.no)
             all == Shown(h) \o (IF h.dir = "r" /\ h.open THEN <<size, size - h.pos, IF size = h.pos THEN 1 ELSE 0>> ELSE <<>>)
         IN /\ e.r = all
            /\ e.op = "ropen" => e.v = (IF h.kind = "byte" THEN <<0, 1, 0, 1, 0>> ELSE <<1, 0, 1, 0, 1>>)
            /\ e.op \notin {"seek", "ropen"} => LET t == Taken(e) IN IF t.ok THEN e.v = t.v ELSE e.v = (IF e.op \in {"rchar", "rnum"} THEN <<0>> ELSE <<>>)
Do(e) == Enabled(e) /\ Effect(e) /\ Answer(e)
=============================================================================
