------------------------------ MODULE MC_Text -------------------------------
(* How documents are stored.  Every document of a bounded number of nodes  *)
(* is written by the two writers, as text with tabs and line ends and in   *)
(* the binary form with its back-patched sizes, and read back by scanning: *)
(* both readers find the document that was written.                        *)
EXTENDS Doc
CONSTANT Most
VARIABLES text, elem, begin,  \* text writer: output, an element was written last, a sequence was opened last
          bin, holes          \* binary writer: output, positions of sizes to be filled in
tvars == <<text, elem, begin, bin, holes>>

Words == {<<>>, <<97>>, <<58, 45>>}
Keys == {<<97>>, <<98, 32>>}
Commands ==
  [op : {"new"}, f : {"text", "bin"}, g : {"mem"}, k : {0}]
  \cup [op : {"key"}, x : Keys] \cup [op : {"put"}, f : {"str"}, x : Words]
  \cup [op : {"open"}, k : {0, 1}] \cup {[op |-> "shut"], [op |-> "done"]}
Tabs(m) == [i \in 1..m |-> 9]
Depth == Len(stack) - 1
Size1(v) == <<v>>   \* a size; its width does not matter
Patch(s, at, v) == [s EXCEPT ![at] = v]
TextOf(c) ==
  CASE c.op = "key" -> Tabs(Depth) \o c.x \o <<58>>
    [] c.op = "put" -> IF InMap THEN c.x \o <<10>> ELSE (IF begin THEN Tabs(Depth - 1) ELSE <<>>) \o <<9>> \o c.x
    [] c.op = "open" -> (IF InMap THEN <<>> ELSE Tabs(Depth)) \o <<IF c.k = 0 THEN 123 ELSE 91, 10>>
    [] c.op = "shut" -> (IF elem THEN <<10>> ELSE <<>>) \o Tabs(Depth - 1) \o <<IF InMap THEN 125 ELSE 93, 10>>
    [] OTHER -> <<>>
Write(c) ==
  /\ text' = IF how.form = "text" THEN text \o TextOf(c) ELSE text
  /\ elem' = (IF c.op = "put" THEN ~InMap ELSE FALSE)
  /\ begin' = (c.op = "open" /\ c.k = 1)
  /\ IF how.form # "bin" THEN UNCHANGED <<bin, holes>>
     ELSE CASE c.op = "key" -> bin' = bin \o Size1(Len(c.x)) \o c.x /\ UNCHANGED holes
            [] c.op = "put" -> bin' = bin \o <<1>> \o Size1(Len(c.x)) \o c.x /\ UNCHANGED holes
            [] c.op = "open" -> bin' = bin \o <<2 + c.k, 0>> /\ holes' = Append(holes, Len(bin) + 2)
            [] c.op = "shut" -> /\ bin' = Patch(bin, holes[Len(holes)], Len(bin) - holes[Len(holes)])
                                /\ holes' = SubSeq(holes, 1, Len(holes) - 1)
            [] OTHER -> UNCHANGED <<bin, holes>>
MInit == Init /\ text = <<>> /\ elem = FALSE /\ begin = FALSE /\ bin = <<>> /\ holes = <<>>
MNext == \E c \in Commands :
           /\ Enabled(c) /\ Effect(c)
           /\ IF c.op = "new" THEN UNCHANGED tvars ELSE Write(c)
MSpec == MInit /\ [][MNext]_<<jvars, tvars>>
Small == Len(nodes) <= Most

---------------------------------------------------------------------------
\* Documents as values: <<"str", v>>, <<"seq", elements>>, <<"map", {<<name, value>>}>>
RECURSIVE Value(_)
Value(m) == CASE nodes[m].t = "str" -> <<"str", nodes[m].v>>
              [] nodes[m].t = "seq" -> <<"seq", [i \in 1..Len(nodes[m].kids) |-> Value(nodes[m].kids[i])]>>
              [] nodes[m].t = "map" -> <<"map", {<<nodes[j].name, Value(j)>> : j \in Names(m)}>>

\* Text: positions are 1-based; 0 means not found; a node occupies s[from..to].
Find(s, x, from, to) == LET H == {i \in from..to : s[i] = x} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i <= j
NotTab(s, from, to) == LET H == {i \in from..to : s[i] # 9} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i <= j
RECURSIVE Match(_, _, _, _)
Match(s, open, i, count) == LET n == count + (IF s[i] = open THEN 1 ELSE IF s[i] = open + 2 THEN -1 ELSE 0)
                            IN IF n = 0 THEN i ELSE Match(s, open, i + 1, n)
RECURSIVE ReadMap(_, _, _), ReadSeq(_, _, _), Cells(_, _, _)
ReadBox(s, at, stop) == IF s[at] = 123 THEN <<"map", ReadMap(s, at + 2, stop - 1)>> ELSE <<"seq", ReadSeq(s, at + 2, stop - 1)>>
ReadMap(s, from, to) ==
  LET c == Find(s, 58, from, to)
      b == NotTab(s, from, to)
  IN IF c = 0 THEN {}
     ELSE LET name == SubSeq(s, b, c - 1)
              box == c < to /\ s[c + 1] \in {123, 91}
              stop == IF box THEN Match(s, s[c + 1], c + 3, 1) ELSE Find(s, 10, c + 1, to)
          IN {<<name, IF box THEN ReadBox(s, c + 1, stop) ELSE <<"str", SubSeq(s, c + 1, stop - 1)>> >>}
             \cup ReadMap(s, IF box THEN stop + 2 ELSE stop + 1, to)
\* Elements of a line, which ends at s[to]: a tab stands before each.
Cells(s, from, to) == IF from >= to THEN <<>>
                      ELSE LET e == Find(s, 9, from + 1, to)
                               stop == IF e = 0 THEN to ELSE e
                           IN <<<<"str", SubSeq(s, from + 1, stop - 1)>>>> \o Cells(s, stop, to)
ReadSeq(s, from, to) ==
  LET b == NotTab(s, from, to)
      last == LET H == {i \in from..to : s[i] = 10} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i >= j
  IN IF b = 0 THEN <<>>
     ELSE IF s[b] \in {123, 91} THEN LET stop == Match(s, s[b], b + 2, 1) IN <<ReadBox(s, b, stop)>> \o ReadSeq(s, stop + 2, to)
     ELSE Cells(s, from + (to - last), last)  \* the line has as many tabs in front as the closing bracket
RECURSIVE BinMap(_, _, _), BinSeq(_, _, _)
BinNode(s, at) == LET stop == at + 1 + s[at + 1] IN
  CASE s[at] = 1 -> <<"str", SubSeq(s, at + 2, stop)>> [] s[at] = 2 -> <<"map", BinMap(s, at + 2, stop)>> [] s[at] = 3 -> <<"seq", BinSeq(s, at + 2, stop)>>
BinMap(s, from, to) == IF from > to THEN {}
                       ELSE LET at == from + 1 + s[from]
                            IN {<<SubSeq(s, from + 1, at - 1), BinNode(s, at)>>} \cup BinMap(s, at + 2 + s[at + 1], to)
BinSeq(s, from, to) == IF from > to THEN <<>> ELSE <<BinNode(s, from)>> \o BinSeq(s, from + 2 + s[from + 1], to)

TextBack == how.done /\ how.form = "text" => <<"map", ReadMap(text, 1, Len(text))>> = Value(1)
BinBack == how.done /\ how.form = "bin" => <<"map", BinMap(bin, 1, Len(bin))>> = Value(1) /\ holes = <<>>
\* A container is not left before its children are complete: levels agree.
Levels == how.form = "bin" /\ ~how.done /\ stack # <<>> => Len(holes) = Depth
=============================================================================
