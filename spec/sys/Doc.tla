--------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* JSON documents of basicsys: a document is written token by token into a *)
(* text or binary buffer in memory or in a file, and read back through     *)
(* handles on its nodes.  What a handle answers is a function of the node  *)
(* alone, however the document is stored and in whatever order it is read. *)
(*                                                                         *)
(* A node is [t, name, w, v, kids]: t is "map", "seq", "str", "int",       *)
(* "real" or "bool"; w is the type a number was written with; v are the    *)
(* bytes of a string, the four 16 bit limbs of an integer (lowest first,   *)
(* two's complement), eighths of a real, or 0/1.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES nodes,  \* number -> node; 1 is the root
          stack,  \* containers being written, innermost last
          key,    \* key that waits for its value; <<>> if none
          how,    \* [form, via, done]
          hand    \* handle -> node number
jvars == <<nodes, stack, key, how, hand>>

Init == nodes = <<>> /\ stack = <<>> /\ key = <<>> /\ how = [form |-> "none", via |-> "none", done |-> FALSE] /\ hand = <<>>

Node(t, name, w, v) == [t |-> t, name |-> name, w |-> w, v |-> v, kids |-> <<>>]
Top == stack[Len(stack)]
InMap == nodes[Top].t = "map"
Writing == stack # <<>> /\ ~how.done
Container(t) == t \in {"map", "seq"}
IntTypes == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
RealTypes == {"f32", "f64"}
Signed(w) == w \in {"i8", "i16", "i32", "i64"}
Bits(w) == CASE w \in {"i8", "u8"} -> 8 [] w \in {"i16", "u16"} -> 16 [] w \in {"i32", "u32", "f32"} -> 32 [] OTHER -> 64

---------------------------------------------------------------------------
(* Numbers                                                                 *)
\* Whether the limbs are the value of a number of type w.
Upper(v, from, x) == \A i \in from..4 : v[i] = x
InType(v, w) ==
  CASE w = "u8" -> v[1] < 256 /\ Upper(v, 2, 0)
    [] w = "u16" -> Upper(v, 2, 0)
    [] w = "u32" -> Upper(v, 3, 0)
    [] w = "u64" -> TRUE
    [] w = "i8" -> (v[1] < 128 /\ Upper(v, 2, 0)) \/ (v[1] >= 65408 /\ Upper(v, 2, 65535))
    [] w = "i16" -> (v[1] < 32768 /\ Upper(v, 2, 0)) \/ (v[1] >= 32768 /\ Upper(v, 2, 65535))
    [] w = "i32" -> (v[2] < 32768 /\ Upper(v, 3, 0)) \/ (v[2] >= 32768 /\ Upper(v, 3, 65535))
    [] w = "i64" -> TRUE
High(d) == ~Signed(d.w) /\ (CASE Bits(d.w) = 8 -> d.v[1] >= 128 [] Bits(d.w) = 16 -> d.v[1] >= 32768 [] Bits(d.w) = 32 -> d.v[2] >= 32768 [] OTHER -> d.v[4] >= 32768)
Negative(d) == Signed(d.w) /\ d.v[4] >= 32768
\* The binary form keeps no sign: great unsigned numbers are read with the type they were written with.
IntReadable(d, w) ==
  /\ InType(d.v, w)
  /\ Negative(d) => Signed(w)
  /\ (~Signed(d.w) /\ d.v[4] >= 32768) => ~Signed(w)
  /\ (how.form = "bin" /\ High(d)) => w = d.w
Little(v) == (v[3] = 0 /\ v[4] = 0 /\ v[2] < 8) \/ (v[3] = 65535 /\ v[4] = 65535 /\ v[2] >= 65528)
LittleValue(v) == IF v[4] = 0 THEN v[1] + 65536 * v[2] ELSE v[1] + 65536 * (v[2] - 65536)
RealReadable(d) == d.t = "real" \/ (d.t = "int" /\ Little(d.v) /\ ~(~Signed(d.w) /\ d.v[4] # 0) /\ ~(how.form = "bin" /\ High(d)))
RealValue(d) == IF d.t = "real" THEN d.v ELSE LittleValue(d.v) * 8
\* Reading a scalar as w.
Readable(d, w) ==
  CASE w = "str" -> d.t = "str"
    [] w = "b8" -> d.t = "bool"
    [] w \in IntTypes -> d.t = "int" /\ IntReadable(d, w)
    [] w \in RealTypes -> RealReadable(d)
\* As lists of integers.
Shown(d, w) == CASE w = "b8" -> <<d.v>> [] w \in RealTypes -> <<RealValue(d)>> [] OTHER -> d.v

---------------------------------------------------------------------------
(* Writing                                                                 *)
Banned == {9, 10, 123, 125, 91, 93}
Clean(s) == \A i \in DOMAIN s : s[i] \notin Banned
Names(m) == {nodes[m].kids[i] : i \in DOMAIN nodes[m].kids}
HasName(m, x) == \E j \in Names(m) : nodes[j].name = x
\* In text the elements of a sequence are all scalars or all containers.
Mixes(container) == how.form = "text" /\ ~InMap /\ \E j \in Names(Top) : Container(nodes[j].t) # container
Free == Writing /\ (IF InMap THEN key # <<>> ELSE TRUE)
KeyEnabled(c) == Writing /\ InMap /\ key = <<>> /\ c.x # <<>> /\ Clean(c.x) /\ 58 \notin {c.x[i] : i \in DOMAIN c.x} /\ ~HasName(Top, c.x)

\* The nodes after adding a list of scalars below a node.
AddScalars(ns, at, ds) ==
  [i \in 1..(Len(ns) + Len(ds)) |->
     IF i = at THEN [ns[at] EXCEPT !.kids = @ \o [j \in 1..Len(ds) |-> Len(ns) + j]]
     ELSE IF i <= Len(ns) THEN ns[i] ELSE ds[i - Len(ns)]]
AddNode(ns, at, d) == AddScalars(ns, at, <<d>>)
Limbs(v) == IF v >= 0 THEN <<v % 65536, v \div 65536, 0, 0>> ELSE <<(v + 1073741824) % 65536, ((v + 1073741824) \div 65536) + 49152, 65535, 65535>>
ScalarOf(c, name) ==
  CASE c.f = "str" -> Node("str", name, "str", c.x)
    [] c.f = "b8" -> Node("bool", name, "b8", c.n)
    [] c.f \in IntTypes -> Node("int", name, c.f, c.x)
    [] c.f \in RealTypes -> Node("real", name, c.f, c.n)
ScalarEnabled(c) == /\ Free /\ ~Mixes(FALSE)
                    /\ c.f = "str" => Clean(c.x)
                    /\ c.f \in IntTypes => Len(c.x) = 4 /\ InType(c.x, c.f)
\* A vector of numbers (x), of vectors of numbers (x cut into pieces of the lengths y), and a map of numbers with one-letter keys (y).
VecEnabled(c) == /\ Free /\ ~Mixes(TRUE)
                 /\ c.f = "map" => Len(c.x) = Len(c.y) /\ Cardinality({c.y[i] : i \in DOMAIN c.y}) = Len(c.y) /\ ~(how.form = "text" /\ FALSE)
NumberNode(c, name, v) == IF c.g \in RealTypes THEN Node("real", name, c.g, v) ELSE Node("int", name, c.g, Limbs(v))
RECURSIVE SumTo(_, _)
SumTo(y, m) == IF m = 0 THEN 0 ELSE SumTo(y, m - 1) + y[m]
VecNodes(c, name) ==
  LET at == Len(nodes) + 1
      outer == AddNode(nodes, Top, Node(IF c.f = "map" THEN "map" ELSE "seq", name, "-", <<>>))
  IN IF c.f = "vec" THEN AddScalars(outer, at, [i \in 1..Len(c.x) |-> NumberNode(c, <<>>, c.x[i])])
     ELSE IF c.f = "map" THEN AddScalars(outer, at, [i \in 1..Len(c.x) |-> NumberNode(c, <<c.y[i]>>, c.x[i])])
     ELSE LET Fold[m \in 0..Len(c.y)] ==
                IF m = 0 THEN outer
                ELSE LET ns == AddNode(Fold[m - 1], at, Node("seq", <<>>, "-", <<>>))
                     IN AddScalars(ns, Len(ns), [i \in 1..c.y[m] |-> NumberNode(c, <<>>, c.x[SumTo(c.y, m - 1) + i])])
          IN Fold[Len(c.y)]

---------------------------------------------------------------------------
(* Reading                                                                 *)
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
\* Children in the order of iteration: maps by key, sequences as written.
Children(m) ==
  IF nodes[m].t = "seq" THEN nodes[m].kids
  ELSE LET ks == nodes[m].kids
           Rank(i) == Cardinality({j \in DOMAIN ks : Before(nodes[ks[j]].name, nodes[ks[i]].name)})
       IN [r \in 1..Len(ks) |-> ks[CHOOSE i \in DOMAIN ks : Rank(i) = r - 1]]
NodeOf(c) == nodes[hand[c.n]]
Named(m, x) == CHOOSE j \in Names(m) : nodes[j].name = x
Single(d) == d.t = "seq" /\ Len(d.kids) = 1 /\ ~Container(nodes[d.kids[1]].t)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Flag(b) == IF b THEN 1 ELSE 0
Head3(j) == <<Flag(nodes[j].t = "map"), Flag(nodes[j].t = "seq"), Len(nodes[j].name)>> \o nodes[j].name
Counted(s) == <<Len(s)>> \o s

Enabled(c) ==
  CASE c.op = "new" -> ~how.done /\ nodes = <<>> /\ c.f \in {"text", "bin"} /\ (c.k = 1 => c.f = "bin")
    [] c.op = "key" -> KeyEnabled(c)
    [] c.op = "put" -> ScalarEnabled(c)
    [] c.op = "open" -> Free /\ ~Mixes(TRUE) /\ Len(stack) < 6
    [] c.op = "shut" -> Writing /\ Len(stack) > 1 /\ key = <<>>
    [] c.op = "vec" -> VecEnabled(c)
    [] c.op = "done" -> Writing /\ Len(stack) = 1 /\ key = <<>>
    [] c.op = "root" -> how.done
    [] c.op = "at" -> /\ how.done /\ c.n \in DOMAIN hand
                      /\ CASE NodeOf(c).t = "map" -> c.f \in {"str", "lit"} /\ HasName(hand[c.n], c.x) /\ (c.f = "lit" => 0 \notin {c.x[i] : i \in DOMAIN c.x})
                           [] NodeOf(c).t = "seq" -> c.f = "index" /\ c.i \in 0..(Len(NodeOf(c).kids) - 1)
                           [] OTHER -> FALSE
    [] c.op = "kind" -> c.n \in DOMAIN hand
    [] c.op = "has" -> c.n \in DOMAIN hand /\ NodeOf(c).t = "map"
    [] c.op = "list" -> /\ c.n \in DOMAIN hand /\ Container(NodeOf(c).t)
                        /\ c.f \in {"plus", "minus"} => NodeOf(c).t = "seq"
    [] c.op = "get" -> /\ c.n \in DOMAIN hand
                       /\ IF Single(NodeOf(c)) THEN /\ c.f # "b8" /\ Readable(nodes[NodeOf(c).kids[1]], c.f)
                                                    /\ (how.form = "bin" /\ c.f \in IntTypes) => Little(nodes[NodeOf(c).kids[1]].v) /\ ~High(nodes[NodeOf(c).kids[1]])
                          ELSE ~Container(NodeOf(c).t) /\ Readable(NodeOf(c), c.f)
    [] c.op = "vecof" -> /\ c.n \in DOMAIN hand
                         /\ IF NodeOf(c).t = "seq" THEN \A j \in Names(hand[c.n]) : ~Container(nodes[j].t) /\ Readable(nodes[j], c.f)
                            ELSE NodeOf(c).t # "map" /\ Readable(NodeOf(c), c.f)
    [] c.op = "vec2of" -> /\ c.n \in DOMAIN hand /\ NodeOf(c).t = "seq"
                          /\ \A j \in Names(hand[c.n]) : nodes[j].t = "seq" /\ \A k \in Names(j) : ~Container(nodes[k].t) /\ Readable(nodes[k], "i32")
    [] c.op = "mapof" -> /\ c.n \in DOMAIN hand /\ NodeOf(c).t = "map"
                         /\ \A j \in Names(hand[c.n]) : ~Container(nodes[j].t) /\ Readable(nodes[j], c.f)

Effect(c) ==
  CASE c.op = "new" -> /\ nodes' = <<Node(IF c.k = 1 THEN "seq" ELSE "map", <<>>, "-", <<>>)>> /\ stack' = <<1>>
                       /\ how' = [form |-> c.f, via |-> c.g, done |-> FALSE] /\ UNCHANGED <<key, hand>>
    [] c.op = "key" -> key' = c.x /\ UNCHANGED <<nodes, stack, how, hand>>
    [] c.op = "put" -> nodes' = AddNode(nodes, Top, ScalarOf(c, key)) /\ key' = <<>> /\ UNCHANGED <<stack, how, hand>>
    [] c.op = "open" -> /\ nodes' = AddNode(nodes, Top, Node(IF c.k = 1 THEN "seq" ELSE "map", key, "-", <<>>))
                        /\ stack' = Append(stack, Len(nodes) + 1) /\ key' = <<>> /\ UNCHANGED <<how, hand>>
    [] c.op = "shut" -> stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<nodes, key, how, hand>>
    [] c.op = "vec" -> nodes' = VecNodes(c, key) /\ key' = <<>> /\ UNCHANGED <<stack, how, hand>>
    [] c.op = "done" -> how' = [how EXCEPT !.done = TRUE] /\ hand' = <<>> /\ UNCHANGED <<nodes, stack, key>>
    [] c.op = "root" -> hand' = (c.k :> 1) @@ hand /\ UNCHANGED <<nodes, stack, key, how>>
    [] c.op = "at" -> hand' = (c.k :> (IF NodeOf(c).t = "map" THEN Named(hand[c.n], c.x) ELSE NodeOf(c).kids[c.i + 1])) @@ hand /\ UNCHANGED <<nodes, stack, key, how>>
    [] OTHER -> UNCHANGED jvars

Answer(e) ==
  /\ e.errors = 0
  /\ CASE e.op \in {"root", "at"} -> e.r = Head3(hand'[e.k])
       [] e.op = "kind" -> e.r = <<Flag(NodeOf(e).t = "map"), Flag(NodeOf(e).t = "seq"), IF Container(NodeOf(e).t) THEN Len(NodeOf(e).kids) ELSE 1>>
       [] e.op = "has" -> e.r = Flag(HasName(hand[e.n], e.x))
       [] e.op = "list" ->
            LET ks == Children(hand[e.n])
                order == CASE e.f \in {"pre", "post"} -> ks
                           [] e.f \in {"back", "postback"} -> [i \in 1..Len(ks) |-> ks[Len(ks) + 1 - i]]
                           [] e.f = "plus" -> [i \in 1..((Len(ks) + 1) \div 2) |-> ks[2 * i - 1]]
                           [] e.f = "minus" -> [i \in 1..(Len(ks) \div 2) |-> ks[Len(ks) + 1 - 2 * i]]
            IN e.r = Cat([i \in 1..Len(order) |-> Head3(order[i])])
       [] e.op = "get" -> e.r = Shown(IF Single(NodeOf(e)) THEN nodes[NodeOf(e).kids[1]] ELSE NodeOf(e), e.f)
       [] e.op = "vecof" -> e.r = (IF NodeOf(e).t = "seq" THEN Cat([i \in 1..Len(NodeOf(e).kids) |-> Counted(Shown(nodes[NodeOf(e).kids[i]], e.f))])
                                   ELSE Counted(Shown(NodeOf(e), e.f)))
       [] e.op = "vec2of" -> e.r = Cat([i \in 1..Len(NodeOf(e).kids) |->
                                LET d == nodes[NodeOf(e).kids[i]] IN Counted(Cat([j \in 1..Len(d.kids) |-> Shown(nodes[d.kids[j]], "i32")]))])
       [] e.op = "mapof" -> e.r = LET ks == Children(hand[e.n]) IN Cat([i \in 1..Len(ks) |-> Counted(nodes[ks[i]].name) \o Counted(Shown(nodes[ks[i]], e.f))])
       [] OTHER -> TRUE
Do(e) == Enabled(e) /\ Effect(e) /\ Answer(e)
=============================================================================
