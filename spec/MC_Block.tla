------------------------------ MODULE MC_Block ------------------------------
(***************************************************************************)
(* Exhaustive check of the decoding rules (Block) on small messages, and   *)
(* generation of these messages as test inputs.  Theme selects the family: *)
(*   "kv"     all tag arrays of dense groups over {0, 1, 2}                *)
(*   "tags"   all assignments of tags to dense nodes, encoded              *)
(*   "lens"   all lengths of the parallel arrays of a dense group          *)
(*   "dinfo"  all lengths of the metadata arrays of a dense group          *)
(*   "delta"  all sequences of boundary values, delta-encoded              *)
(*   "units"  granularity, offset and value                                *)
(*   "info"   presence of every metadata field of every element kind       *)
(*   "str"    string tables with good and bad entries, and all indices     *)
(*   "mems"   lengths of the arrays of a relation, of a way's locations    *)
(*   "mix"    which kinds of elements are in which group                   *)
(*   "seq"    dense groups after each other: each one starts afresh        *)
(*   "adj"    ways, relations and nodes after each other in a group        *)
(***************************************************************************)
EXTENDS Block, FiniteSets, TLC, Json

CONSTANTS Theme, Size, Emit

VARIABLE msg

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

NoGroup == [nodes |-> <<>>, dense |-> <<>>, ways |-> <<>>, rels |-> <<>>]
Base == [kind |-> "data", st |-> << <<>>, <<97>>, <<98>> >>, gran |-> <<>>, dgran |-> <<>>, lato |-> <<>>,
         lono |-> <<>>, groups |-> <<>>]
One(g) == [Base EXCEPT !.groups = <<g>>]

Consts(n, v) == [i \in 1..n |-> v]
DenseOf(n, kv) == [id |-> Consts(n, L(1)), lat |-> Consts(n, L(3)), lon |-> Consts(n, L(-2)), kv |-> kv, info |-> <<>>]
WithDense(d) == One([NoGroup EXCEPT !.dense = <<d>>])

NoInfo == <<>>
NodeOf(id) == [id |-> id, keys |-> <<>>, vals |-> <<>>, info |-> NoInfo, lat |-> L(7), lon |-> L(-9)]
WayOf(id) == [id |-> id, keys |-> <<>>, vals |-> <<>>, info |-> NoInfo, refs |-> <<>>, lat |-> <<>>, lon |-> <<>>]
RelOf(id) == [id |-> id, keys |-> <<>>, vals |-> <<>>, info |-> NoInfo, roles |-> <<>>, ids |-> <<>>, types |-> <<>>]

----------------------------------------------------------------------------
\* (TLC evaluates definitions without a parameter up front, even those of other themes.)
KvSet(z) == {WithDense(DenseOf(n, MapSeq(a, L))) : n \in 0..3, a \in Seqs(0..2, Size)}

\* Tags of the nodes of a group, as pairs; and their encoding.
TagLists == Seqs(Seqs({<<1, 2>>, <<2, 1>>}, 2), 2) \cup Seqs({<<>>, <<<<1, 1>>>>}, 3)
Flatten2(ts) == FoldLeft(LAMBDA a, p : a \o <<L(p[1]), L(p[2])>>, <<>>, ts)
EncodeKv(tl) == FoldLeft(LAMBDA a, ts : (a \o Flatten2(ts)) \o <<LZero>>, <<>>, tl)
TagSet(z) == {WithDense(DenseOf(Len(tl), EncodeKv(tl))) : tl \in TagLists}

LenSet(z) ==
    {WithDense([DenseOf(0, kv) EXCEPT !.id = Consts(a, L(2)), !.lat = Consts(b, L(3)), !.lon = Consts(c, L(-5))])
        : a \in 0..Size, b \in 0..Size, c \in 0..Size, kv \in {<<>>, <<L(1), L(2), L(0)>>, <<L(0), L(1), L(2), L(0)>>}}

DInfo(a, b, c, d, x, v) ==
    [ver |-> [i \in 1..a |-> L(i)], ts |-> Consts(b, L(10)), cs |-> Consts(c, L(-1)), uid |-> Consts(d, L(5)),
     sid |-> Consts(x, L(1)), vis |-> [i \in 1..v |-> i % 2 = 0]]
DInfoSet(z) ==
    {WithDense([DenseOf(2, <<>>) EXCEPT !.info = <<DInfo(q[1], q[2], q[3], q[4], q[5], q[6])>>])
        : q \in {x \in [1..6 -> 0..3] : Size > 2 \/ Cardinality({i \in 1..6 : x[i] # 2}) <= 2}}

Bounds == { LZero, L(1), L(-1), <<0, 0, 2, 0, 0>>, <<32767, 32767, 1, 0, 0>>, <<32767, 32767, 32767, 32767, 7>>,
            <<0, 0, 0, 0, -8>>, <<0, 0, 8, 0, 0>> }
Deltas(vs) == [i \in DOMAIN vs |-> IF i = 1 THEN vs[1] ELSE LAdd(vs[i], LNeg(vs[i - 1]))]
ValueSeqs(z) == Seqs(Bounds, Size)
DeltaSet(z) ==
    {One([NoGroup EXCEPT
        !.dense = <<[id |-> Deltas(vs), lat |-> Deltas(vs), lon |-> Deltas([i \in DOMAIN vs |-> LNeg(vs[i])]),
                     kv |-> <<>>, info |-> <<>>]>>,
        !.ways = <<[WayOf(L(1)) EXCEPT !.refs = Deltas(vs), !.lat = Deltas(vs), !.lon = Deltas(vs)], [WayOf(L(2)) EXCEPT !.refs = Deltas(vs)]>>,
        !.rels = <<[RelOf(L(1)) EXCEPT !.ids = Deltas(vs), !.roles = Consts(Len(vs), L(1)), !.types = Consts(Len(vs), 1)],
                   [RelOf(L(2)) EXCEPT !.ids = Deltas(vs), !.roles = Consts(Len(vs), L(2)), !.types = Consts(Len(vs), 2)]>>])
        : vs \in ValueSeqs(z)}

Offsets == {<<>>, <<LZero>>, <<L(50)>>, <<L(-150)>>, <<<<0, 0, 2, 0, 0>>>>}
Grans == {<<>>, <<L(1)>>, <<L(100)>>, <<L(1000)>>, <<L(33)>>}
Values == {LZero, L(1), L(-1), L(99), L(-199), <<32767, 32767, 1, 0, 0>>, <<0, 0, 32766, 32767, -1>>}
UnitSet(z) ==
    {[One([NoGroup EXCEPT !.nodes = <<[NodeOf(L(1)) EXCEPT !.lat = v, !.lon = LNeg(v)]>>,
                          !.dense = <<[DenseOf(1, <<>>) EXCEPT !.lat = <<v>>, !.lon = <<LNeg(v)>>]>>,
                          !.ways = <<[WayOf(L(1)) EXCEPT !.refs = <<L(1)>>, !.lat = <<v>>, !.lon = <<LNeg(v)>>]>>])
      EXCEPT !.gran = g, !.lato = a, !.lono = b]
        : g \in Grans, a \in Offsets, b \in Offsets, v \in Values}

Opt(p, v) == IF p THEN <<v>> ELSE <<>>
InfoSet(z) ==
    {LET x == <<[ver |-> Opt(p[1], L(0)), ts |-> Opt(p[2], L(12)), cs |-> Opt(p[3], L(-1)), uid |-> Opt(p[4], L(0)),
                 sid |-> Opt(p[5], L(1)), vis |-> v]>>
     IN [One([NoGroup EXCEPT !.nodes = <<[NodeOf(L(1)) EXCEPT !.info = x], NodeOf(L(2))>>,
                             !.ways = <<[WayOf(L(1)) EXCEPT !.info = x], WayOf(L(2))>>,
                             !.rels = <<[RelOf(L(1)) EXCEPT !.info = x], RelOf(L(2))>>])
         EXCEPT !.dgran = g]
        : p \in [1..5 -> BOOLEAN], v \in {<<>>, <<TRUE>>, <<FALSE>>}, g \in {<<>>, <<L(1)>>, <<L(2500)>>}}

StrEntries == {<<97>>, <<195, 159>>, <<255>>}
Indices == {L(0), L(1), L(2), L(3), L(-1)}
StrSet(z) ==
    {[One([NoGroup EXCEPT
        !.nodes = IF LIsNeg(a) \/ LIsNeg(b) THEN <<>> ELSE
                  <<[NodeOf(L(1)) EXCEPT !.keys = <<a, L(0)>>, !.vals = <<b, L(0)>>,
                                         !.info = <<[ver |-> <<>>, ts |-> <<>>, cs |-> <<>>, uid |-> <<>>, sid |-> <<a>>, vis |-> <<>>]>>]>>,
        !.dense = <<[DenseOf(1, IF a = L(0) THEN <<>> ELSE <<a, b, L(0)>>)
                     EXCEPT !.info = <<[ver |-> <<L(1)>>, ts |-> <<L(1)>>, cs |-> <<L(1)>>, uid |-> <<L(1)>>, sid |-> <<b>>, vis |-> <<>>]>>]>>,
        !.rels = <<[RelOf(L(1)) EXCEPT !.roles = <<a, b>>, !.ids = <<L(1), L(1)>>, !.types = <<0, 1>>]>>])
      EXCEPT !.st = s] : a \in Indices, b \in Indices, s \in Seqs(StrEntries, 3)}

MemSet(z) ==
    {One([NoGroup EXCEPT
        !.ways = <<[WayOf(L(1)) EXCEPT !.refs = Consts(2, L(4)), !.lat = Consts(a, L(3)), !.lon = Consts(b, L(-3)),
                                       !.keys = Consts(a, L(1)), !.vals = Consts(b, L(2))]>>,
        !.rels = <<[RelOf(L(1)) EXCEPT !.roles = Consts(a, L(1)), !.ids = Consts(b, L(7)), !.types = [i \in 1..c |-> i % 3]]>>])
        : a \in 0..Size, b \in 0..Size, c \in 0..Size}

Present == [1..4 -> 0..1]
GroupOf(p, n) ==
    [nodes |-> Consts(p[1], NodeOf(L(n))), dense |-> IF p[2] = 0 THEN <<>> ELSE <<DenseOf(2, <<>>)>>,
     ways |-> Consts(p[3] * 2, WayOf(L(n))), rels |-> Consts(p[4], RelOf(L(n)))]
MixSet(z) == {[Base EXCEPT !.groups = [i \in DOMAIN ps |-> GroupOf(ps[i], i)]] : ps \in Seqs(Present, Size)}

\* Dense groups after each other.  What an iterator may wrongly carry over: sums, pending tags, metadata.
SomeInfo(n) == <<DInfo(n, n, n, n, n, n)>>
DenseMenu ==
    {DenseOf(0, <<>>), DenseOf(0, <<L(1), L(2), L(0)>>), DenseOf(2, <<L(1), L(2)>>), DenseOf(2, <<L(1), L(2), L(0), L(0)>>),
     [DenseOf(2, <<>>) EXCEPT !.info = SomeInfo(2)], [DenseOf(2, <<>>) EXCEPT !.info = SomeInfo(1)], [DenseOf(2, <<>>) EXCEPT !.info = SomeInfo(3)],
     [DenseOf(2, <<L(1), L(2), L(0)>>) EXCEPT !.lat = <<L(3)>>], [DenseOf(1, <<L(0), L(2), L(1), L(0)>>) EXCEPT !.id = <<L(4), L(4)>>]}
    \cup {[id |-> <<L(a)>>, lat |-> <<L(c)>>, lon |-> <<L(c)>>, kv |-> kv, info |-> <<>>] : a \in {0, 5}, c \in {0, 1}, kv \in {<<>>, <<L(0)>>, <<L(2), L(1), L(0)>>}}
    \cup {[id |-> <<L(a), L(b)>>, lat |-> <<L(c), L(d)>>, lon |-> <<L(-c), L(-d)>>, kv |-> <<>>, info |-> <<>>]
            : a \in {3}, b \in {-3, 1}, c \in {0, 6}, d \in {0, -6}}
GroupMenu(z) == {[NoGroup EXCEPT !.dense = <<d>>] : d \in DenseMenu} \cup {NoGroup, [NoGroup EXCEPT !.ways = <<WayOf(L(1))>>]}
SeqSet(z) == {[Base EXCEPT !.groups = gs] : gs \in [1..2 -> GroupMenu(z)]}
             \cup (IF Size < 3 THEN {} ELSE {[Base EXCEPT !.groups = gs] : gs \in [1..3 -> GroupMenu(z)]})

\* Elements after each other.
InfoMenu == {<<>>, <<[ver |-> <<L(1)>>, ts |-> <<L(7)>>, cs |-> <<L(2)>>, uid |-> <<L(3)>>, sid |-> <<L(1)>>, vis |-> <<FALSE>>]>>}
TagMenu == {<<<<>>, <<>>>>, <<<<L(1)>>, <<L(2)>>>>, <<<<L(2), L(1)>>, <<L(1)>>>>}
NodeMenu == {[NodeOf(L(a)) EXCEPT !.keys = t[1], !.vals = t[2], !.info = x] : a \in {0, -4}, t \in TagMenu, x \in InfoMenu}
WayMenu == {[WayOf(L(6)) EXCEPT !.keys = t[1], !.vals = t[2], !.info = x, !.refs = r, !.lat = c, !.lon = c]
              : t \in TagMenu, x \in InfoMenu, r \in {<<>>, <<L(4)>>, <<L(4), L(-4)>>}, c \in {<<>>, <<L(8), L(-8)>>}}
RelMenu == {[RelOf(L(2)) EXCEPT !.keys = t[1], !.vals = t[2], !.info = x, !.roles = r[1], !.ids = r[2], !.types = r[3]]
              : t \in TagMenu, x \in InfoMenu,
                r \in {<<<<>>, <<>>, <<>>>>, <<<<L(1)>>, <<L(9)>>, <<1>>>>, <<<<L(2), L(0)>>, <<L(9), L(-9)>>, <<2, 0>>>>, <<<<L(1), L(1)>>, <<L(9)>>, <<0, 1>>>>}}
AdjSet(z) == {One([NoGroup EXCEPT !.nodes = s]) : s \in [1..2 -> NodeMenu]} \cup {One([NoGroup EXCEPT !.ways = s]) : s \in [1..2 -> WayMenu]}
             \cup {One([NoGroup EXCEPT !.rels = s]) : s \in [1..2 -> RelMenu]}

All(z) == CASE Theme = "kv" -> KvSet(Size) [] Theme = "tags" -> TagSet(Size) [] Theme = "lens" -> LenSet(Size)
         [] Theme = "dinfo" -> DInfoSet(Size) [] Theme = "delta" -> DeltaSet(Size) [] Theme = "units" -> UnitSet(Size)
         [] Theme = "info" -> InfoSet(Size) [] Theme = "str" -> StrSet(Size) [] Theme = "mems" -> MemSet(Size) [] Theme = "mix" -> MixSet(Size)
         [] Theme = "seq" -> SeqSet(Size) [] Theme = "adj" -> AdjSet(Size)

Init == msg \in All(Theme)
Next == UNCHANGED msg
Spec == Init /\ [][Next]_msg

----------------------------------------------------------------------------
(* Properties of the decoding rules *)

RawDense == msg.groups[1].dense[1]

\* C12: every node owns a piece of the array: the pieces, each with its terminator, are the array.
PiecesOf(Dense) == FoldLeft(LAMBDA a, x : (a \o FoldLeft(LAMBDA b, p : b \o p, <<>>, x.raw)) \o <<LZero>>, <<>>, Dense)
KvOk(D) ==
    \A Dense \in {D.groups[1].dense} : \A Pieces \in {PiecesOf(Dense)} :
    /\ Theme = "tags" => Pieces = RawDense.kv
    /\ \A i \in DOMAIN Dense : \A j \in DOMAIN Dense[i].raw : Dense[i].raw[j][1] # LZero
    \* what is stored for the first nodes does not depend on what follows
    /\ \A i \in DOMAIN Dense : KvOfNodes(RawDense.kv, i) = [k \in 1..i |-> Dense[k].raw]

\* C11, C14: decoding inverts the delta encoding
DeltaOk(D) ==
  LET Dense == D.groups[1].dense IN
    LET w == D.groups[1].ways[1] IN
    /\ [i \in DOMAIN Dense |-> Dense[i].id] = Sums(msg.groups[1].ways[1].refs)
    /\ \E vs \in {[i \in DOMAIN w.refs |-> w.refs[i]]} : Deltas(vs) = RawDense.id /\ vs = w.refs
                              /\ vs = [i \in DOMAIN Dense |-> Dense[i].id]
                              /\ vs = [i \in DOMAIN D.groups[1].rels[1].mems |-> D.groups[1].rels[1].mems[i].id]
                              /\ D.groups[1].ways[2].refs = vs

\* C11: only nodes with an id, a latitude and a longitude
LenOk(D) ==
  LET Dense == D.groups[1].dense IN
    /\ Len(Dense) = Min2(Len(RawDense.id), Min2(Len(RawDense.lat), Len(RawDense.lon)))
    /\ D.groups[1].dok = (Len(RawDense.id) = Len(RawDense.lat) /\ Len(RawDense.lat) = Len(RawDense.lon))

\* C15: all kinds of positions follow the same rule; truncation is towards zero
UnitsOk(D) ==
  LET Dense == D.groups[1].dense IN
    LET g == D.groups[1] IN
    /\ g.nodes[1].pos = g.dense[1].pos /\ g.nodes[1].pos[1] = g.ways[1].locs[1]
    /\ \A n \in {g.nodes[1].pos[1].nlat, g.nodes[1].pos[1].nlon} :
        LET q == LDivTrunc(n, 100)
            r == LAdd(n, LNeg(LMul(q, L(100))))
        IN /\ LInt(IF LIsNeg(r) THEN LNeg(r) ELSE r) \in 0..99
           /\ r = LZero \/ LIsNeg(r) = LIsNeg(n)

\* C13: present exactly if stored
InfoOk(D) ==
  LET Dense == D.groups[1].dense IN
    \A x \in {D.groups[1].nodes[1], D.groups[1].ways[1], D.groups[1].rels[1]} :
        LET i == msg.groups[1].nodes[1].info[1] IN
        /\ x.info[1].ver = i.ver /\ x.info[1].cs = i.cs /\ x.info[1].uid = i.uid
        /\ Len(x.info[1].ts) = Len(i.ts)
        /\ Len(i.ts) = 1 => x.info[1].ts[1] = LMul(i.ts[1], Or(msg.dgran, L(1000)))
        /\ x.info[1].vis = (i.vis # <<FALSE>>)
DInfoOk(D) ==
  LET Dense == D.groups[1].dense IN
    \A i \in DOMAIN Dense : (Dense[i].info = <<>>) = (i > Min2(Min2(Min2(Len(RawDense.info[1].ver), Len(RawDense.info[1].ts)),
        Min2(Len(RawDense.info[1].cs), Len(RawDense.info[1].uid))), Len(RawDense.info[1].sid)))

\* C16: a string is the entry, or an error that names the index
StrOk(D) ==
  LET Dense == D.groups[1].dense IN
    \A m \in DOMAIN D.groups[1].rels[1].mems :
        LET x == D.groups[1].rels[1].mems[m].role
            idx == msg.groups[1].rels[1].roles[m]
        IN /\ x.i = idx
           /\ x.ok => x.s = msg.st[LInt(idx) + 1] /\ IsUtf8(x.s)
           /\ ~x.ok => x.k = "oob" \/ ~IsUtf8(msg.st[LInt(idx) + 1])

\* C17: the number of elements
SizeOk(D) == D.size = FoldLeft(LAMBDA a, g : (((a + Len(g.nodes)) + Len(g.dense)) + Len(g.ways)) + Len(g.rels), 0, D.groups)

\* C11 to C14: a group says the same in every company, and so does an element that is not dense
Alone(i) == DecodeBlock([msg EXCEPT !.groups = <<msg.groups[i]>>]).groups[1]
SeqOk(D) == \A i \in DOMAIN msg.groups : D.groups[i] = Alone(i)
AdjOk(D) ==
    LET g == msg.groups[1]
        one(x) == DecodeBlock(One(x)).groups[1]
    IN /\ \A i \in DOMAIN g.nodes : <<D.groups[1].nodes[i]>> = one([NoGroup EXCEPT !.nodes = <<g.nodes[i]>>]).nodes
       /\ \A i \in DOMAIN g.ways : <<D.groups[1].ways[i]>> = one([NoGroup EXCEPT !.ways = <<g.ways[i]>>]).ways
       /\ \A i \in DOMAIN g.rels : <<D.groups[1].rels[i]>> = one([NoGroup EXCEPT !.rels = <<g.rels[i]>>]).rels

Right ==
    \* a quantifier, so that TLC decodes only once
    \A D \in {DecodeBlock(msg)} :
    /\ SizeOk(D)
    /\ CASE Theme \in {"kv", "tags"} -> KvOk(D)
         [] Theme = "lens" -> KvOk(D) /\ LenOk(D)
         [] Theme = "dinfo" -> DInfoOk(D)
         [] Theme = "delta" -> DeltaOk(D)
         [] Theme = "units" -> UnitsOk(D)
         [] Theme = "info" -> InfoOk(D)
         [] Theme = "str" -> StrOk(D)
         [] Theme \in {"mix", "seq"} -> SeqOk(D)
         [] Theme = "adj" -> AdjOk(D)
         [] OTHER -> TRUE

EmitTests == Emit => PrintT(<<"PLAN", ToJson(msg)>>)
=============================================================================
