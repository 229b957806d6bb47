------------------------------ MODULE MC_Files ------------------------------
(***************************************************************************)
(* Exhaustive check of what whole-stream operations have to deliver        *)
(* (Files), on all sequences of small cells, and generation of these       *)
(* files as test inputs.                                                   *)
(*                                                                         *)
(* A cell is the name of a frame shape:                                    *)
(*   head  header blob          badhead  damaged header blob               *)
(*   unk   unknown type         badunk   unknown type, damaged content     *)
(*   bad   damaged data blob    big      data blob beyond 32 MiB           *)
(*   and data blobs: empty, nodes, dense, ways, mixed, rels                *)
(* The tail is what follows the last frame.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxCells, Emit

VARIABLE file

DataCells == {"empty", "nodes", "dense", "ways", "mixed", "rels"}
AllCells == DataCells \cup {"head", "badhead", "unk", "badunk", "bad"}
Tails == {"none", "cutdata", "cuthead", "err"}

N(id) == [k |-> "node", id |-> id]
D(id) == [k |-> "dense", id |-> id]
W(id, refs) == [k |-> "way", id |-> id, refs |-> refs]
Rel(id) == [k |-> "rel", id |-> id]
G(n, d, w, r) == [nodes |-> n, dense |-> d, ways |-> w, rels |-> r]

GroupsOf(c) ==
    CASE c = "empty" -> <<>>
      [] c = "nodes" -> << G(<<N(1), N(2)>>, <<>>, <<>>, <<>>), G(<<N(1)>>, <<>>, <<>>, <<>>) >>
      [] c = "dense" -> << G(<<>>, <<D(2), D(3)>>, <<>>, <<>>) >>
      [] c = "ways" -> << G(<<>>, <<>>, <<W(1, <<1, 2, 1>>), W(2, <<>>)>>, <<>>), G(<<>>, <<>>, <<W(3, <<3, 9>>)>>, <<>>) >>
      [] c = "mixed" -> << G(<<N(4)>>, <<D(5)>>, <<W(1, <<2, 4>>)>>, <<Rel(1)>>) >>
      [] c = "rels" -> << G(<<>>, <<>>, <<>>, <<Rel(1), Rel(2)>>) >>

TyOf(c) == IF c \in {"head", "badhead"} THEN "H" ELSE IF c \in {"unk", "badunk"} THEN "U" ELSE "D"
Bad(c) == c \in {"badhead", "badunk", "bad"}

Fr(k, ty, nx, ck) == [k |-> k, ty |-> ty, nx |-> nx, c |-> [k |-> ck], cell |-> ""]

At(x, p) ==
    IF p < Len(x.cells)
    THEN LET c == x.cells[p + 1] IN
         [Fr("frame", TyOf(c), p + 1, IF Bad(c) THEN "bad" ELSE "raw") EXCEPT !.cell = c]
    ELSE IF p > Len(x.cells) \/ x.tail = "none" THEN Fr("end", "", p, "none")
    ELSE IF x.tail = "cutdata" THEN Fr("cut", "D", p + 9, "none")
    ELSE IF x.tail = "cuthead" THEN Fr("cut", "H", p + 9, "none")
    ELSE Fr("err", "", p, "none")

Content(x, fr) ==
    LET r(k, m) == [k |-> k, m |-> m] IN
    CASE fr.k = "cut" -> r(IF fr.ty = "H" THEN "hbad" ELSE "bad", "")
      [] fr.cell = "head" -> r("hdr", "") [] fr.cell = "badhead" -> r("hbad", "")
      [] fr.cell \in {"unk", "badunk"} -> r("unk", "")
      [] fr.cell = "bad" -> r("bad", "")
      [] OTHER -> r("msg", fr.cell)

LeHere(a, b) == a <= b
Id(e) == e.id
Refs(e) == e.refs

F == INSTANCE Files WITH FrameAt <- At, Le <- LeHere, ContentAt <- Content, Groups <- GroupsOf,
                         IdOf <- Id, RefsOf <- Refs

Init == file \in [cells : UNION {[1..n -> AllCells] : n \in 0..MaxCells}, tail : Tails]
Next == UNCHANGED file
Spec == Init /\ [][Next]_file

----------------------------------------------------------------------------
Elements(ms) ==
    FlattenSeq([i \in DOMAIN ms |-> FlattenSeq([j \in DOMAIN GroupsOf(ms[i]) |->
        LET g == GroupsOf(ms[i])[j] IN g.nodes \o g.dense \o g.ways \o g.rels])])

w == F!Walk(file, 0)
seq == F!SeqRead(file, w)
idx == F!IndexedRead(file, w)
dataCells == SelectSeq(file.cells, LAMBDA c : c \in DataCells)
Intact == file.tail = "none" /\ \A i \in DOMAIN file.cells : ~Bad(file.cells[i])

\* C01: Ok means everything; otherwise the blobs before the first failing one, in order.
SeqOk ==
    /\ IsPrefix(seq.blocks, dataCells)
    /\ seq.end = "ok" => seq.blocks = dataCells
    /\ Intact => seq.end = "ok"
    /\ (\E i \in DOMAIN file.cells : file.cells[i] \in {"bad", "badhead"}) => seq.end \in {"err", "any"}
    \* C05
    /\ file.tail # "none" => seq.end # "ok"
\* C02: everything that decodes, wherever
AllOk == F!AllBlocks(file, w) = dataCells
\* C18-C20: the indexed reader
IdxOk ==
    /\ IsPrefix(idx.blocks, dataCells)
    /\ idx.end \in {"ok", "may"} => idx.blocks = dataCells
    /\ Intact => idx.end = "ok"
    /\ (\E i \in DOMAIN file.cells : file.cells[i] = "bad") => idx.end = "err"
    /\ file.tail \in {"cutdata", "err"} => idx.end = "err"
NodesOk ==
    LET gs == F!NodeGroups(idx.blocks)
        flat == FlattenSeq([i \in DOMAIN gs |-> gs[i][1] \o gs[i][2]])
    IN flat = SelectSeq(Elements(idx.blocks), LAMBDA x : x.k \in {"node", "dense"})
WaysOk ==
    LET ways == F!AllWays(idx.blocks) IN
    /\ ways = SelectSeq(Elements(idx.blocks), LAMBDA x : x.k = "way")
    /\ \A acc \in SUBSET {1, 2, 3} :
        LET got == F!Accepted(ways, acc, 0)
            deps == F!Deps(idx.blocks, got)
            flat == FlattenSeq([i \in DOMAIN deps |-> deps[i][1] \o deps[i][2]])
            wanted(x) == \E i \in DOMAIN got : \E j \in DOMAIN got[i].refs : got[i].refs[j] = x.id
        IN /\ got = SelectSeq(ways, LAMBDA x : x.id \in acc)
           /\ flat = SelectSeq(Elements(idx.blocks), LAMBDA x : x.k \in {"node", "dense"} /\ wanted(x))

EmitTests == Emit => PrintT(<<"PLAN", ToJson(file)>>)
=============================================================================
