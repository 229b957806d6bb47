------------------------------- MODULE MC_Wire -------------------------------
(***************************************************************************)
(* Messages as sequences of encoded fields: laws of the encoding that the  *)
(* byte level of the specification (Wire, Proto) has to obey, and all      *)
(* short sequences over a menu of fields - usual, unusual and broken - as  *)
(* test inputs.  Theme selects the message that is put together:           *)
(*   "bheader" BlobHeader      "blob" Blob        "hblock" HeaderBlock     *)
(*   "bbox" HeaderBBox         "block" PrimitiveBlock  "group" its groups  *)
(*   "node" Node  "dense" DenseNodes  "way" Way  "rel" Relation            *)
(*   "info" Info of a node     "dinfo" DenseInfo                           *)
(***************************************************************************)
EXTENDS Proto, FiniteSets, TLC, Json

CONSTANTS Theme, Size, Emit

VARIABLE toks       \* indices into Menu

----------------------------------------------------------------------------
(* Encoding *)

RECURSIVE Var(_)
Var(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Var(n \div 128)
Tag(num, wt) == Var(num * 8 + wt)
V(num, n) == Tag(num, 0) \o Var(n)
B(num, b) == Tag(num, 2) \o Var(Len(b)) \o b
ZZ(n) == IF n >= 0 THEN 2 * n ELSE -2 * n - 1
SV(num, n) == V(num, ZZ(n))
Vars(ns) == FlattenSeq([i \in DOMAIN ns |-> Var(ns[i])])
SVars(ns) == FlattenSeq([i \in DOMAIN ns |-> Var(ZZ(ns[i]))])
Minus1 == <<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>
Most == <<255, 255, 255, 255, 255, 255, 255, 255, 127>>         \* 2^63 - 1

\* A field of the menu: its bytes; num its number, 0 if it breaks what follows; last: a later one of
\* the same number replaces it; unk: it means nothing.
T(num, b) == [b |-> b, num |-> num, last |-> FALSE, unk |-> FALSE]
Once(num, b) == [T(num, b) EXCEPT !.last = TRUE]
Unk(num, b) == [T(num, b) EXCEPT !.unk = TRUE]
Bad(b) == T(0, b)

Unknowns == << Unk(50, V(50, 300)), Unk(51, B(51, <<8, 1>>)), Unk(52, Tag(52, 1) \o <<1, 2, 3, 4, 5, 6, 7, 8>>),
               Unk(53, Tag(53, 5) \o <<1, 2, 3, 4>>) >>
Brokens == << Bad(<<8>>), Bad(<<10, 5, 1>>), Bad(<<7>>), Bad(<<0, 0>>), Bad(<<14>>), Bad(Tag(50, 3)), Bad(Tag(50, 3) \o Tag(50, 4)),
              Bad(<<8>> \o [i \in 1..10 |-> 255] \o <<1>>), Bad(<<128, 128>>) >>
\* some more at the end of the menus
Extra == Unknowns \o Brokens

Text1 == <<79, 83, 77, 68, 97, 116, 97>>        \* OSMData
Text2 == <<79, 83, 77, 72, 101, 97, 100, 101, 114>>
BadText == <<97, 237, 160, 128>>
GoodText == <<195, 188>>

\* An empty block: a string table and nothing else; with a node of this id.
NodeBytes(id) == SV(1, id) \o SV(8, 2) \o SV(9, -3)
Table == B(1, B(1, <<>>) \o B(1, <<97>>) \o B(1, <<98, 99>>))
BlockWith(id) == Table \o B(2, B(1, NodeBytes(id)))

InfoMenu(z) == << Once(1, V(1, 3)), Once(1, <<8>> \o Minus1), Once(2, V(2, 77)), Once(2, <<16>> \o Most), Once(3, V(3, 5)), Once(4, V(4, 9)),
                  Once(5, V(5, 1)), Once(5, V(5, 2)), Once(6, V(6, 0)), Once(6, V(6, 1)), T(1, B(1, <<3>>)), Bad(V(1, 0) \o <<40, 255, 255, 255, 255, 127>>),
                  Bad(V(6, 2)) >>

Menu ==
    CASE Theme = "bheader" ->
            << Once(1, B(1, Text1)), Once(1, B(1, Text2)), Once(1, B(1, <<>>)), T(1, B(1, BadText)), T(1, V(1, 3)), Once(2, B(2, <<1, 2, 3>>)),
               Once(2, B(2, <<>>)), Once(2, V(2, 1)), Once(3, V(3, 33)), Once(3, V(3, 0)), Once(3, <<24, 161, 128, 0>>), T(3, <<24>> \o Minus1), T(3, B(3, <<33>>)),
               Once(3, V(3, 1000000)) >> \o Extra
      [] Theme = "blob" ->
            << Once(1, B(1, BlockWith(5))), Once(1, B(1, BlockWith(6))), Once(1, B(1, <<255>>)), Once(1, B(1, Table)), Once(1, B(1, <<>>)), Once(2, V(2, 7)), Once(2, <<16>> \o Minus1),
               T(2, B(2, <<1>>)), T(2, <<16>> \o Most), Once(1, B(4, <<1, 2>>)), Once(1, B(7, BlockWith(7))), Once(1, B(3, <<120, 156, 1>>)), T(1, V(1, 5)), T(3, V(3, 5)) >> \o Extra
      [] Theme = "hblock" ->
            << T(1, B(1, SV(1, 5) \o SV(2, -6) \o SV(3, 7) \o SV(4, -8))), T(1, B(1, SV(1, 5) \o SV(2, -6) \o SV(3, 7))),
               T(1, B(1, SV(1, 5) \o SV(3, 7) \o SV(4, -8))), T(1, B(1, SV(1, 5) \o SV(2, 7) \o SV(4, -8))), T(4, B(4, Text1)), T(4, B(4, <<>>)), T(5, B(5, GoodText)),
               T(5, B(5, BadText)), Once(16, B(16, <<97>>)), Once(16, B(16, <<>>)), Once(17, B(17, GoodText)), Once(32, V(32, 123456)), Once(32, V(32, 0)),
               Once(33, Tag(33, 0) \o Minus1), Once(34, B(34, <<104>>)), T(34, B(34, <<255>>)), T(16, V(16, 5)), T(4, V(4, 2)) >> \o Extra
      [] Theme = "bbox" ->
            << Once(1, SV(1, 5)), Once(1, SV(1, -6)), Once(2, SV(2, 7)), Once(3, SV(3, 0)), Once(4, SV(4, -9)), Once(4, <<32>> \o Most), T(2, B(2, <<4>>)) >> \o SubSeq(Extra, 3, 8)
      [] Theme = "block" ->
            << T(1, Table), T(1, B(1, <<>>)), T(2, B(2, <<>>)), T(2, B(2, B(1, NodeBytes(1)))), T(2, B(2, B(1, NodeBytes(2)) \o B(1, NodeBytes(3)))), T(2, B(2, B(1, SV(1, 3)))),
               Once(17, V(17, 1)), Once(17, V(17, 1000)), T(17, <<136, 1>> \o Most), Once(18, V(18, 7)), Once(19, V(19, 500)), Once(19, Tag(19, 0) \o Minus1), Once(20, V(20, 0)),
               Once(20, Tag(20, 0) \o Most), T(17, B(17, <<1>>)), Bad(Tag(2, 2) \o <<3, 10>>) >> \o Extra
      [] Theme = "group" ->
            << T(1, B(1, NodeBytes(1))), T(1, B(1, NodeBytes(2))), T(2, B(2, B(1, SVars(<<5, 1>>)) \o B(8, SVars(<<1, 1>>)) \o B(9, SVars(<<2, 2>>)))), T(2, B(2, <<>>)), T(3, B(3, V(1, 10))),
               T(3, B(3, V(1, 11) \o B(8, SVars(<<1, 2>>)))), T(3, B(3, <<>>)), T(4, B(4, V(1, 20))), T(4, B(4, V(1, 21) \o B(9, SVars(<<3>>)) \o B(8, <<1>>) \o B(10, <<0>>))),
               Unk(5, B(5, V(1, 99))), T(5, B(5, <<>>)), T(1, B(1, <<255>>)), T(1, V(1, 1)),
               \* a required field is missing
               T(4, B(4, <<>>)), T(4, B(4, B(9, SVars(<<3>>)))), T(1, B(1, SV(8, 1) \o SV(9, 2))), T(1, B(1, SV(1, 1) \o SV(9, 2))), T(1, B(1, SV(1, 1) \o SV(8, 2))) >> \o Extra
      [] Theme = "node" ->
            << Once(1, SV(1, 5)), Once(1, <<8>> \o Minus1), Once(8, SV(8, 10)), Once(9, SV(9, -11)), Once(9, Tag(9, 0) \o Most), T(2, B(2, <<1, 2>>)), T(2, V(2, 1)), T(3, B(3, <<2>>)),
               T(3, V(3, 1)), T(4, B(4, V(1, 4))), T(4, B(4, <<>>)), T(2, B(2, <<128>>)), T(8, B(8, <<2>>)), T(1, Tag(1, 1) \o [i \in 1..8 |-> 0]) >> \o Extra
      [] Theme = "dense" ->
            << T(1, B(1, SVars(<<5, -1>>))), T(1, SV(1, 3)), T(1, B(1, <<>>)), T(8, B(8, SVars(<<1, 2>>))), T(8, SV(8, -1)), T(9, B(9, SVars(<<3>>))), T(9, SV(9, 100)),
               T(10, B(10, <<1, 2, 0>>)), T(10, V(10, 0)), T(10, V(10, 2)), T(5, B(5, B(1, <<1>>) \o B(2, <<2>>) \o B(3, <<2>>) \o B(4, <<4>>) \o B(5, <<2>>))), T(5, B(5, <<>>)),
               T(9, B(9, <<4, 128>>)), T(1, Tag(1, 5) \o <<1, 0, 0, 0>>) >> \o Extra
      [] Theme = "way" ->
            << Once(1, V(1, 7)), Once(1, <<8>> \o Minus1), T(8, B(8, SVars(<<5, 1>>))), T(8, SV(8, -2)), T(9, B(9, SVars(<<1>>))), T(9, SV(9, 4)), T(10, B(10, SVars(<<-1>>))),
               T(10, SV(10, 6)), T(2, B(2, <<1>>)), T(2, V(2, 2)), T(3, B(3, <<1>>)), T(3, V(3, 7)), T(4, B(4, V(4, 4))), T(8, B(8, <<255>>)) >> \o Extra
      [] Theme = "rel" ->
            << Once(1, V(1, 7)), T(8, B(8, <<1, 2>>)), T(8, V(8, 9)), T(8, B(8, Minus1)), T(9, B(9, SVars(<<5, -3>>))), T(9, SV(9, 2)), T(10, B(10, <<0, 2>>)), T(10, V(10, 1)), T(10, V(10, 0)),
               T(2, B(2, <<1>>)), T(3, B(3, <<2>>)), T(4, B(4, V(5, 1))), T(10, B(10, <<129>>)), T(8, B(8, Most)) >> \o Extra
      [] Theme = "info" -> InfoMenu(0) \o SubSeq(Extra, 3, 8)
      [] Theme = "dinfo" ->
            << T(1, B(1, <<1, 2>>)), T(1, V(1, 3)), T(2, B(2, SVars(<<10, -1>>))), T(2, SV(2, 5)), T(3, B(3, SVars(<<7, 7>>))), T(4, B(4, SVars(<<2, -1>>))), T(5, B(5, SVars(<<1, 1>>))),
               T(5, SV(5, -1)), T(6, B(6, <<0, 1>>)), T(6, V(6, 0)), T(6, V(6, 1)), T(6, B(6, <<2>>)), T(4, Tag(4, 0) \o Most) >> \o SubSeq(Extra, 3, 8)

----------------------------------------------------------------------------
(* The message around the fields; required fields come first, so that they can be replaced. *)

Full(id) == B(1, SVars(id)) \o B(8, SVars(id)) \o B(9, SVars(id))
Wrap(b) ==
    CASE Theme \in {"bheader", "blob", "hblock", "block"} -> b
      [] Theme = "bbox" -> B(1, SV(2, 70) \o SV(3, -80) \o b)
      [] Theme = "group" -> Table \o B(2, b)
      [] Theme = "node" -> Table \o B(2, B(1, NodeBytes(9) \o b))
      [] Theme = "dense" -> Table \o B(2, B(2, b))
      [] Theme = "way" -> Table \o B(2, B(3, V(1, 9) \o b))
      [] Theme = "rel" -> Table \o B(2, B(4, V(1, 9) \o b))
      [] Theme = "info" -> Table \o B(2, B(1, NodeBytes(1) \o B(4, b)) \o B(3, V(1, 2) \o B(4, b)) \o B(4, V(1, 3) \o B(4, b)))
      [] Theme = "dinfo" -> Table \o B(2, B(2, Full(<<5, 6>>) \o B(5, b)))

Bytes(ts) == FlattenSeq([i \in DOMAIN ts |-> Menu[ts[i]].b])
FileOf(b) == [ext |-> << <<0, b>> >>]

\* What the message stands for.
MeaningOf(b) ==
    LET w == Wrap(b) IN
    CASE Theme = "bheader" -> LET h == HeaderMsg(FileOf(w), 0, Len(w)) IN [st |-> h.st, m |-> <<h.ty, h.size>>]
      [] Theme = "blob" -> LET x == BlobMsg(FileOf(w), 0, Len(w))
                           IN [st |-> IF x.k \in {"bad", "odd"} THEN x.k ELSE "ok", m |-> <<x.k, BytesOf(FileOf(w), x.s, x.e)>>]
      [] Theme \in {"hblock", "bbox"} -> ContentMsg(FileOf(w), 0, Len(w), "header")
      [] OTHER -> ContentMsg(FileOf(w), 0, Len(w), "data")

\* The same meaning; what a message that is not ok would be does not matter.
Same(a, b) == a.st = b.st /\ (a.st = "ok" => a.m = b.m)

Here == MeaningOf(Bytes(toks))
Sound == \A i \in DOMAIN toks : Menu[toks[i]].num > 0
Without(i) == SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, Len(toks))
Swapped(i) == [toks EXCEPT ![i] = toks[i + 1], ![i + 1] = toks[i]]

----------------------------------------------------------------------------
(* Laws *)

\* Fields of different numbers may be in any order (the fields of the oneof of a blob share a number here).
Commute ==
    Sound => \A i \in 1..(Len(toks) - 1) :
        Menu[toks[i]].num # Menu[toks[i + 1]].num => Same(Here, MeaningOf(Bytes(Swapped(i))))

\* A field with an unknown number means nothing.
Unknown ==
    Sound => \A i \in DOMAIN toks : Menu[toks[i]].unk => Same(Here, MeaningOf(Bytes(Without(i))))

\* Of several values of a single field the last one counts.
LastWins ==
    Sound => \A i \in DOMAIN toks :
        (Menu[toks[i]].last /\ \E j \in (i + 1)..Len(toks) : Menu[toks[j]].last /\ Menu[toks[j]].num = Menu[toks[i]].num)
        => Same(Here, MeaningOf(Bytes(Without(i))))

\* A message that is cut inside a field is no message.
Cut ==
    LET b == Bytes(toks)
        k0 == Len(Bytes(SubSeq(toks, 1, Len(toks) - 1)))
    IN Sound /\ toks # <<>> => \A k \in (k0 + 1)..(Len(b) - 1) : MeaningOf(SubSeq(b, 1, k)).st # "ok"

----------------------------------------------------------------------------
Report == Emit => PrintT(<<"PLAN", ToJson([theme |-> Theme, b |-> Wrap(Bytes(toks)), st |-> Here.st, n |-> Len(toks)])>>)

Init == toks = <<>>
Next == Len(toks) < Size /\ \E i \in DOMAIN Menu : toks' = Append(toks, i)
Spec == Init /\ [][Next]_toks
=============================================================================
