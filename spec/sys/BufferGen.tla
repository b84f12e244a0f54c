----------------------------- MODULE BufferGen ------------------------------
(* Random sessions with buffers (TLC -simulate) for the driver drv_buf.    *)
EXTENDS Buffer, Json
CONSTANTS Depth
VARIABLES hist, n

Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
RBytes(k, S) == [i \in 1..k |-> RandomElement(S)]
Types == {"b8", "i8", "u8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"}
Odd(S) == IF S = {} THEN 1 ELSE Rnd(S)
\* values for text: characters, digits and line ends
RText(k) == IF Chance(3) THEN [i \in 1..k |-> 48 + (RandomElement(0..9))] ELSE [i \in 1..k |-> RandomElement({97, 98, 32, 10, 48, 49, 45, 46, 200, 97})]
\* a real number of few eighths as bytes is no more special than any other bytes, but not every byte pattern is a number that compares equal to itself
RealBytes(w) == IF w = 4 THEN <<0, 0, RandomElement(0..63) * 4, 64>> ELSE <<0, 0, 0, 0, 0, 0, RandomElement(0..63) * 4, 64>>
Val(t) == CASE t = "b8" -> <<RandomElement(0..1)>>
            [] t \in {"f32", "f64"} -> RealBytes(Width(t))
            [] OTHER -> RBytes(Width(t), IF Chance(2) THEN {0, 255, 128, 127, 1} ELSE 0..255)
Num(t) == CASE t = "b8" -> Rnd(0..1) [] t = "i8" -> Rnd({97, 49, 10, 32}) [] t = "u8" -> Rnd(0..255) [] t = "i16" -> Rnd(-32768..32767) [] t = "u16" -> Rnd(0..65535)
            [] t \in {"u32", "u64"} -> Rnd(0..2000000000) [] t \in {"i32", "i64"} -> Rnd(-1000000000..1000000000) [] OTHER -> Rnd(-800..8000)
Open(k) == k \in DOMAIN hand /\ hand[k].open
Command(k, t, f) ==
  IF k \notin DOMAIN hand THEN
    LET full == {s \in DOMAIN store : store[s] # <<>> /\ Users(s) = {} /\ (s <= 2 => f = "byte") /\ (s \in 3..4 => f = "text")}
        again == full # {} /\ ~Chance(4)
        s == IF again THEN Rnd(full) ELSE IF Chance(30) THEN 9 ELSE Rnd(IF f = "byte" THEN {1, 2, 5, 6, 7} ELSE {3, 4, 5, 6, 7})
        via == IF s <= 4 THEN "mem" ELSE IF s = 9 THEN "file" ELSE Rnd({"file", "owned", "lent"})
        write == IF again THEN Chance(4) ELSE ~Chance(12)
    IN [op |-> IF write THEN "wopen" ELSE "ropen", k |-> k, n |-> s, f |-> f, g |-> via, i |-> IF write /\ via = "file" THEN (IF again THEN 1 ELSE Rnd(0..1)) ELSE 0]
  ELSE IF ~Open(k) THEN [op |-> "close", k |-> k, f |-> "drop"]
  ELSE IF (IF hand[k].dir = "w" THEN hand[k].pos > 20 /\ Chance(3) ELSE Chance(9)) THEN [op |-> "close", k |-> k, f |-> IF Chance(2) \/ hand[k].via = "mem" THEN "drop" ELSE "keep"]
  ELSE IF Chance(6) THEN LET size == Size(hand[k].no) whence == Rnd(0..2)
                             to == IF Chance(3) THEN Rnd({0, size}) ELSE Rnd(0..(size + 2))
                         IN [op |-> "seek", k |-> k, i |-> whence, n |-> to - (CASE whence = 0 -> 0 [] whence = 1 -> hand[k].pos [] whence = 2 -> size)]
  ELSE IF hand[k].dir = "w" THEN
    IF hand[k].kind = "byte" THEN
      IF Chance(3) THEN [op |-> "wstr", k |-> k, x |-> RBytes(Rnd(0..6), {0, 10, 65, 66, 200, 255})]
      ELSE IF Chance(4) THEN [op |-> "wbytes", k |-> k, f |-> Rnd({"vec", "ptr"}), x |-> RBytes(Rnd(0..6), 0..255)]
      ELSE [op |-> "w", k |-> k, f |-> t, x |-> Val(t)]
    ELSE IF Chance(3) THEN [op |-> "wstr", k |-> k, x |-> RText(Rnd(0..6)), f |-> Rnd({"str", "lit"})] ELSE [op |-> "w", k |-> k, f |-> t, n |-> Num(t)]
  ELSE IF hand[k].kind = "byte" THEN
    IF Chance(3) THEN [op |-> "rstr", k |-> k, f |-> Rnd({"ret", "out"}), n |-> IF Chance(5) THEN Left(k) ELSE Rnd(0..6)]
    ELSE IF Chance(4) THEN [op |-> "rbytes", k |-> k, f |-> Rnd({"vec", "ptr"}), n |-> Rnd(1..6)]
    ELSE [op |-> "r", k |-> k, f |-> t]
  ELSE
    LET ns == {m \in 1..12 : m <= Left(k) /\ IsNumber(Part(store[hand[k].no], hand[k].pos, m))}
    IN IF ns # {} /\ Chance(2) THEN [op |-> "rnum", k |-> k, n |-> IF Chance(9) THEN Left(k) + 1 ELSE Rnd(ns)]
       ELSE IF Chance(3) THEN [op |-> "rchar", k |-> k]
       ELSE IF Chance(2) THEN [op |-> "rline", k |-> k, f |-> Rnd({"ret", "out"})]
       ELSE [op |-> "rstr", k |-> k, f |-> Rnd({"ret", "out"}), n |-> IF Chance(5) THEN Left(k) ELSE Rnd(0..6)]
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E what \in {Rnd(1..14)} : \E k \in {Rnd(1..3)} : \E t \in {Rnd(Types)} : \E f \in {Rnd({"byte", "text"})} :
            \E c \in {TLCEval(IF what = 1 THEN [op |-> "count"] ELSE IF what <= 3 /\ DOMAIN store # {} THEN [op |-> "dump", n |-> Rnd(DOMAIN store)] ELSE Command(k, t, f))} :
               IF TLCEval(Enabled(c)) THEN Effect(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<bvars, hist>>
GSpec == GInit /\ [][GNext]_<<bvars, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
