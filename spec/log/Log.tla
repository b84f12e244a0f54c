-------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* The logger of a process: its kinds, levels and filters, what it prints  *)
(* for a message, and the rotating files of the file logger.               *)
(* Texts are bytes.  A file is known by a number; it remembers its folder, *)
(* its content and how many logs it took.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES lg, disk
vars == <<lg, disk>>

All == {"debug", "info", "warning", "error"}
None == [kind |-> "none", on |-> All, filters |-> <<>>, whole |-> FALSE, ts |-> <<>>, logs |-> 1, files |-> 1, dir |-> <<>>]
\* files: number -> [dir, text, n]; mine: what the logger wrote, oldest first; open: the last of them takes more.
NoDisk == [files |-> <<>>, next |-> 1, mine |-> <<>>, open |-> FALSE, zone |-> 0]
Init == lg = None /\ disk = NoDisk

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
RECURSIVE Times(_, _)
Times(x, k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN x ELSE Times(x, k \div 2) \o Times(x, k - (k \div 2))

---------------------------------------------------------------------------
(* What is printed                                                         *)
LevelText(f) ==
  CASE f = "debug" -> <<100, 101, 98, 117, 103>> [] f = "info" -> <<105, 110, 102, 111>>
    [] f = "warning" -> <<119, 97, 114, 110, 105, 110, 103>> [] f = "error" -> <<101, 114, 114, 111, 114>>
Performance == <<112, 101, 114, 102, 111, 114, 109, 97, 110, 99, 101>>
Unsupported == <<117, 110, 115, 117, 112, 112, 111, 114, 116, 32, 111, 112, 101, 114, 97, 116, 105, 111, 110>>
FileName(x) == LET s == [i \in DOMAIN x |-> IF x[i] = 92 THEN 47 ELSE x[i]]
                   H == {i \in DOMAIN s : s[i] = 47}
               IN IF H = {} THEN s ELSE SubSeq(s, (CHOOSE i \in H : \A j \in H : i >= j) + 1, Len(s))
ZoneText == <<32, 85, 84, 67, 32>> \o (IF disk.zone > 0 THEN <<43>> ELSE <<>>) \o Decimal(disk.zone)
\* "[level] [time UTC zone] <tag> in line n of <file>, "
Opening(level, tag, file, line) ==
  <<91>> \o LevelText(level) \o <<93, 32, 91>> \o lg.ts \o ZoneText \o <<93, 32, 60>> \o tag \o <<62, 32, 105, 110, 32, 108, 105, 110, 101, 32>> \o Decimal(line)
    \o <<32, 111, 102, 32, 60>> \o (IF lg.whole THEN file ELSE FileName(file)) \o <<62, 44, 32>>
Piece == 5000
RECURSIVE Pieces(_)
Pieces(t) == IF Len(t) <= Piece THEN <<t>> ELSE <<SubSeq(t, 1, Piece)>> \o Pieces(SubSeq(t, Piece + 1, Len(t)))
Filtered(tag) == \E i \in DOMAIN lg.filters : lg.filters[i] = tag

(* The calls that print: [level, tag, msg, file, line], or nothing.        *)
\* The driver calls the macros at line 77 of "some dir/mac.ro".
MacroFile == <<115, 111, 109, 101, 32, 100, 105, 114, 47, 109, 97, 99, 46, 114, 111>>
MacroLevel(c) == IF c.f \in All THEN c.f ELSE "error"
MacroSpeaks(c) == /\ lg.kind # "none" /\ MacroLevel(c) \in lg.on
                  /\ c.f \in {"assert", "assert_message"} => c.i = 0
MacroText(c) == CASE c.f = "assert" -> <<>> [] c.f = "unsupport" -> Unsupported [] OTHER -> c.y
Call(c) == IF c.op = "macro" THEN [level |-> MacroLevel(c), tag |-> IF c.g = "plain" THEN <<>> ELSE c.x, msg |-> MacroText(c), file |-> MacroFile, line |-> 77]
           ELSE [level |-> c.f, tag |-> c.x, msg |-> Times(c.y, c.k), file |-> c.z, line |-> c.n]
Speaks(c) == CASE c.op = "log" -> TRUE [] c.op = "macro" -> MacroSpeaks(c) [] OTHER -> FALSE
Printed(m) == Opening(m.level, m.tag, m.file, m.line) \o m.msg
\* The pieces a call hands on; for the performance tag a hint follows whose words are left open.
Handed(c) == IF Speaks(c) /\ ~Filtered(Call(c).tag) THEN Pieces(Printed(Call(c)) \o <<10>>) ELSE <<>>

---------------------------------------------------------------------------
(* Rotating files                                                          *)
Blocked == <<98, 108, 111, 99, 107, 101, 100, 47>>   \* nothing can be made below "blocked/"
Usable(d) == ~(Len(d) >= Len(Blocked) /\ SubSeq(d, 1, Len(Blocked)) = Blocked)
\* The oldest files go until there is room for one more.
RECURSIVE Room(_)
Room(d) == IF d.mine = <<>> \/ Len(d.mine) < Max(1, lg.files) THEN d
           ELSE Room([d EXCEPT !.mine = Tail(@), !.files = [k \in DOMAIN @ \ {d.mine[1]} |-> @[k]]])
Current(d) == d.mine[Len(d.mine)]
Put1(d, p) ==
  IF ~Usable(lg.dir) THEN d
  ELSE IF d.open /\ d.files[Current(d)].n < Max(1, lg.logs) THEN [d EXCEPT !.files[Current(d)] = [@ EXCEPT !.text = @ \o p, !.n = @ + 1]]
  ELSE LET r == Room(d)
       IN [r EXCEPT !.files = (r.next :> [dir |-> lg.dir, text |-> p, n |-> 1]) @@ @, !.next = @ + 1, !.mine = Append(@, r.next), !.open = TRUE]
RECURSIVE Put(_, _)
Put(d, ps) == IF ps = <<>> THEN d ELSE Put(Put1(d, ps[1]), Tail(ps))
Closed == [disk EXCEPT !.mine = <<>>, !.open = FALSE]

---------------------------------------------------------------------------
RECURSIVE Same(_, _)
Same(p, n) == IF n = 0 THEN <<>> ELSE <<p>> \o Same(p, n - 1)
Threads(c) == 0..(c.k - 1)
\* Threads mark their messages, unless they go to files.
Mark(c, j, i) == IF lg.kind = "file" THEN <<>> ELSE <<97 + j, 48 + i>>
ParLine(c, j, i) == Opening("info", c.x, c.z, 5) \o c.y \o Mark(c, j, i) \o <<10>>

Enabled(c) ==
  CASE c.op = "new" -> c.f \in {"own", "console", "ide", "file"} /\ c.k >= 1 /\ c.n >= 1
    [] c.op = "zone" -> c.n \in -12..14
    [] c.op = "release" -> TRUE
    [] c.op = "level" -> lg.kind # "none" /\ c.f \in All
    [] c.op = "filter" -> lg.kind # "none"
    [] c.op = "log" -> lg.kind # "none" /\ c.f \in All /\ c.k >= 0 /\ (c.x = Performance => lg.kind = "own" /\ Len(c.y) * c.k < 1000)
    [] c.op = "macro" -> c.x # Performance \/ c.g = "plain" \/ lg.kind = "own"
    [] c.op = "dir" -> lg.kind = "file"
    [] c.op = "limit" -> lg.kind = "file" /\ c.n >= 1
    [] c.op = "par" -> lg.kind # "none" /\ c.k \in 1..8 /\ c.n \in 1..9 /\ c.x # Performance /\ Len(ParLine(c, 0, 0)) < Piece
Effect(c) ==
  CASE c.op = "new" -> /\ lg' = [None EXCEPT !.kind = c.f, !.whole = (c.i = 1), !.ts = c.x, !.logs = c.k, !.files = c.n, !.dir = c.y]
                       /\ disk' = Closed
    [] c.op = "zone" -> disk' = [disk EXCEPT !.zone = c.n] /\ UNCHANGED lg
    [] c.op = "release" -> lg' = None /\ disk' = Closed
    [] c.op = "level" -> lg' = [lg EXCEPT !.on = IF c.n = 1 THEN @ \cup {c.f} ELSE @ \ {c.f}] /\ UNCHANGED disk
    [] c.op = "filter" -> lg' = [lg EXCEPT !.filters = IF c.f = "add" THEN Append(@, c.x) ELSE IF c.f = "clear" THEN <<>> ELSE <<c.x, c.y>>] /\ UNCHANGED disk
    [] c.op \in {"log", "macro"} -> disk' = (IF lg.kind = "file" THEN Put(disk, Handed(c)) ELSE disk) /\ UNCHANGED lg
    [] c.op = "dir" -> lg' = [lg EXCEPT !.dir = c.y] /\ disk' = Closed
    [] c.op = "limit" -> lg' = [lg EXCEPT !.logs = IF c.f = "logs" THEN c.n ELSE @, !.files = IF c.f = "files" THEN c.n ELSE @] /\ UNCHANGED disk
    [] c.op = "par" -> disk' = (IF lg.kind = "file" /\ ~Filtered(c.x) THEN Put(disk, Same(ParLine(c, 0, 0), c.k * c.n)) ELSE disk) /\ UNCHANGED lg

\* Lists of counted strings.
RECURSIVE Items(_, _)
Items(r, i) == IF i > Len(r) THEN <<>> ELSE <<SubSeq(r, i + 1, i + r[i])>> \o Items(r, i + 1 + r[i])
RECURSIVE Glue(_)
Glue(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Glue(Tail(s))
Flag(b) == IF b THEN 1 ELSE 0
Flags == <<Flag("debug" \in lg'.on), Flag("info" \in lg'.on), Flag("warning" \in lg'.on), Flag("error" \in lg'.on)>>
\* The files of the driver's folder are the ones of the specification.
OnDisk(t) == LET got == TLCEval(Items(t, 1))
                 want == TLCEval([k \in DOMAIN disk'.files |-> disk'.files[k].dir \o <<0>> \o disk'.files[k].text])
             IN /\ Len(got) = Cardinality(DOMAIN want)
                /\ \A g \in {got[i] : i \in DOMAIN got} : Cardinality({i \in DOMAIN got : got[i] = g}) = Cardinality({k \in DOMAIN want : want[k] = g})
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Screen == lg.kind \in {"console", "ide"}
Heard(e) == LET it == TLCEval(Items(e.o, 1))
            IN IF e.op \in {"log", "macro"} /\ Speaks(e) /\ Call(e).tag = Performance /\ ~Filtered(Performance)
               THEN Len(it) = 1 /\ StartsWith(it[1], Printed(Call(e))) /\ it[1][Len(it[1])] = 10 /\ Len(it[1]) > Len(Printed(Call(e))) + 1
               ELSE it = (IF Screen THEN <<Glue(Handed(e))>> ELSE IF lg.kind = "own" THEN Handed(e) ELSE <<>>)
\* What a screen shows of several threads, line by line.
RECURSIVE Lines(_)
Lines(t) == IF t = <<>> THEN <<>> ELSE LET i == CHOOSE i \in DOMAIN t : (t[i] = 10 \/ i = Len(t)) /\ \A j \in 1..(i - 1) : t[j] # 10
                                       IN <<SubSeq(t, 1, i)>> \o Lines(SubSeq(t, i + 1, Len(t)))
\* Every line of every thread once, whole, and in the thread's order.
Merged(c, it) ==
  /\ Len(it) = c.k * c.n
  /\ \A j \in Threads(c) : SelectSeq(it, LAMBDA p : \E i \in 1..c.n : p = ParLine(c, j, i)) = [i \in 1..c.n |-> ParLine(c, j, i)]
Answer(e) ==
  /\ e.escapes = 0 /\ OnDisk(e.t)
  /\ CASE e.op \in {"log", "macro"} -> Heard(e)
       [] e.op = "par" -> IF lg.kind = "file" \/ Filtered(e.x) THEN Glue(Items(e.o, 1)) = <<>>
                          ELSE Merged(e, IF Screen THEN Lines(Glue(Items(e.o, 1))) ELSE Items(e.o, 1))
       [] e.op \in {"level", "new"} -> e.r = Flags
       [] e.op = "filter" -> Items(e.r, 1) = lg'.filters
       [] OTHER -> TRUE
Do(e) == Enabled(e) /\ Effect(e) /\ Answer(e)
=============================================================================
