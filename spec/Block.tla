-------------------------------- MODULE Block -------------------------------
(***************************************************************************)
(* What a decoded block says.  A message is the structured form of the     *)
(* stored protobuf message (delta-encoded, indices into the string table); *)
(* the operators below define the elements it contains.  Optional fields   *)
(* are sequences of length 0 or 1; numbers are digit tuples (see Num);     *)
(* strings are byte sequences.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num, Utf8

Or(opt, default) == IF opt = <<>> THEN default ELSE opt[1]

Min2(a, b) == IF a < b THEN a ELSE b

\* TLC evaluates the entries of a function anew each time; those of a concatenation only once.
Force(s) == s \o <<>>

MapSeq(s, f(_)) == Force([i \in 1..Len(s) |-> f(s[i])])

\* Running sums of a delta-encoded sequence.
Sums(ds) ==
    FoldLeft(LAMBDA acc, d : Append(acc, IF acc = <<>> THEN d ELSE LAdd(acc[Len(acc)], d)), <<>>, ds)

\* Running sums in 32-bit arithmetic.
Sums32(ds) ==
    FoldLeft(LAMBDA acc, d : Append(acc, IF acc = <<>> THEN d ELSE LWrap32(LAdd(acc[Len(acc)], d))), <<>>, ds)

----------------------------------------------------------------------------
(* Strings.  A resolution is [ok, s, k, i]: the string s, or the error kind k with index i.  *)

Resolved(st, valid, idx) ==
    LET i == LInt(idx) IN
    IF i = -1 \/ i >= Len(st) THEN [ok |-> FALSE, s |-> <<>>, k |-> "oob", i |-> idx]
    ELSE IF ~valid[i + 1] THEN [ok |-> FALSE, s |-> <<>>, k |-> "utf8", i |-> idx]
    ELSE [ok |-> TRUE, s |-> st[i + 1], k |-> "", i |-> idx]

\* Pairs of a key and a value list, up to the end of the shorter one.
Zip2(ks, vs) == Force([i \in 1..Min2(Len(ks), Len(vs)) |-> <<ks[i], vs[i]>>])

\* The tags that can be resolved, up to the first one that cannot.
TagList(st, valid, raw) ==
    LET good(p) == Resolved(st, valid, p[1]).ok /\ Resolved(st, valid, p[2]).ok
        n == FoldLeft(LAMBDA a, p : IF a.go /\ good(p) THEN [go |-> TRUE, n |-> a.n + 1]
                                    ELSE [go |-> FALSE, n |-> a.n], [go |-> TRUE, n |-> 0], raw).n
    IN Force([i \in 1..n |-> <<Resolved(st, valid, raw[i][1]).s, Resolved(st, valid, raw[i][2]).s>>])

----------------------------------------------------------------------------
(* Coordinates *)

Nano(off, gran, v) == LAdd(off, LMul(gran, v))
Decimicro(n) == LWrap32(LDivTrunc(n, 100))

----------------------------------------------------------------------------
(* Tags of dense nodes: ((key value)* 0)* for all nodes of a group.  Yields per node the raw    *)
(* pairs.  A node whose tags are not terminated owns the rest; a trailing odd entry belongs to  *)
(* no tag; after the end of the array nodes have no tags.                                       *)

\* One entry v at a time, the i-th of len; a node's pairs are in cur, a key waiting for its value in key.
KvStep(a, v, last) ==
    IF a.key # <<>> THEN [a EXCEPT !.cur = Append(@, <<a.key[1], v>>), !.key = <<>>]
    ELSE IF v = LZero \/ last THEN [a EXCEPT !.out = Append(@, a.cur), !.cur = <<>>]
    ELSE [a EXCEPT !.key = <<v>>]

\* The lists of all nodes that are terminated, and the rest.
KvLists(kv) ==
    LET r == FoldLeft(LAMBDA a, i : KvStep(a, kv[i], i = Len(kv)), [out |-> <<>>, cur |-> <<>>, key |-> <<>>],
                      [i \in 1..Len(kv) |-> i])
    IN Append(r.out, r.cur)

KvOfNodes(kv, n) ==
    IF kv = <<>> THEN [i \in 1..n |-> <<>>]
    ELSE LET ls == KvLists(kv) IN Force([i \in 1..n |-> IF i <= Len(ls) THEN ls[i] ELSE <<>>])

----------------------------------------------------------------------------
(* Metadata.  Present fields are sequences of length 1. *)

InfoOf(st, valid, dgran, oi) ==
    IF oi = <<>> THEN [ver |-> <<>>, ts |-> <<>>, cs |-> <<>>, uid |-> <<>>, user |-> <<>>, vis |-> TRUE]
    ELSE LET x == oi[1] IN
         [ver |-> x.ver,
          ts |-> MapSeq(x.ts, LAMBDA t : LMul(t, dgran)),
          cs |-> x.cs,
          uid |-> x.uid,
          user |-> MapSeq(x.sid, LAMBDA s : Resolved(st, valid, s)),
          vis |-> Or(x.vis, TRUE)]

\* Per node <<info>> or <<>>: a node has metadata as far as all five arrays reach.
DenseInfoOf(st, valid, dgran, oi, n) ==
    IF oi = <<>> THEN [i \in 1..n |-> <<>>]
    ELSE LET x == oi[1]
             k == Min2(Min2(Min2(Len(x.ver), Len(x.ts)), Min2(Len(x.cs), Len(x.uid))), Len(x.sid))
             ts == Sums(x.ts)
             cs == Sums(x.cs)
             uid == Sums32(x.uid)
             sid == Sums32(x.sid)
         IN Force([i \in 1..n |->
              IF i > k THEN <<>>
              ELSE << [ver |-> <<x.ver[i]>>,
                       ts |-> <<LMul(ts[i], dgran)>>,
                       cs |-> <<cs[i]>>,
                       uid |-> <<uid[i]>>,
                       user |-> <<Resolved(st, valid, sid[i])>>,
                       vis |-> IF i <= Len(x.vis) THEN x.vis[i] ELSE TRUE] >>])

----------------------------------------------------------------------------
(* Elements: [k, id, pos, raw, tags, info, refs, rrefs, locs, mems, tok, ...].                  *)
(* tok: all tags resolve and keys and values are equally many; similar flags for the others.    *)

Pos(lat, lon) == [nlat |-> lat, nlon |-> lon, dlat |-> Decimicro(lat), dlon |-> Decimicro(lon)]

El(st, k, id, pos, raw, tags, tok, info) ==
    [k |-> k, id |-> id, nst |-> Len(st), pos |-> pos, raw |-> raw, tags |-> tags,
     rawok |-> TRUE, tok |-> tok, info |-> info,
     refs |-> <<>>, rrefs |-> <<>>, locs |-> <<>>, lok |-> TRUE, mems |-> <<>>, mok |-> TRUE, wild |-> FALSE]

DecodeGroup(m, valid, g) ==
    LET gran == Or(m.gran, L(100))
        dgran == Or(m.dgran, L(1000))
        lato == Or(m.lato, LZero)
        lono == Or(m.lono, LZero)
        st == m.st
        P(lat, lon) == Pos(Nano(lato, gran, lat), Nano(lono, gran, lon))
        node(x) ==
            LET raw == Zip2(x.keys, x.vals)
                tags == TagList(st, valid, raw)
                even == Len(x.keys) = Len(x.vals)
            IN [El(st, "node", x.id, <<P(x.lat, x.lon)>>, raw, tags, even /\ Len(tags) = Len(raw),
                   <<InfoOf(st, valid, dgran, x.info)>>) EXCEPT !.rawok = even]
        dense(d) ==
            LET n == Min2(Len(d.id), Min2(Len(d.lat), Len(d.lon)))
                ids == Sums(SubSeq(d.id, 1, n))
                lats == Sums(SubSeq(d.lat, 1, n))
                lons == Sums(SubSeq(d.lon, 1, n))
                kv == KvOfNodes(d.kv, n)
                info == DenseInfoOf(st, valid, dgran, d.info, n)
            IN Force([i \in 1..n |->
                  LET tags == TagList(st, valid, kv[i])
                  IN El(st, "dense", ids[i], <<P(lats[i], lons[i])>>, kv[i], tags, Len(tags) = Len(kv[i]), info[i])])
        way(x) ==
            LET raw == Zip2(x.keys, x.vals)
                tags == TagList(st, valid, raw)
                even == Len(x.keys) = Len(x.vals)
                n == Min2(Len(x.lat), Len(x.lon))
                lats == Sums(SubSeq(x.lat, 1, n))
                lons == Sums(SubSeq(x.lon, 1, n))
            IN [El(st, "way", x.id, <<>>, raw, tags, even /\ Len(tags) = Len(raw),
                   <<InfoOf(st, valid, dgran, x.info)>>)
                EXCEPT !.rawok = even, !.refs = Sums(x.refs), !.rrefs = x.refs,
                       !.locs = Force([i \in 1..n |-> P(lats[i], lons[i])]),
                       !.lok = (Len(x.lat) = Len(x.lon))]
        rel(x) ==
            LET raw == Zip2(x.keys, x.vals)
                tags == TagList(st, valid, raw)
                even == Len(x.keys) = Len(x.vals)
                n == Min2(Len(x.roles), Min2(Len(x.ids), Len(x.types)))
                ids == Sums(SubSeq(x.ids, 1, n))
            IN [El(st, "rel", x.id, <<>>, raw, tags, even /\ Len(tags) = Len(raw),
                   <<InfoOf(st, valid, dgran, x.info)>>)
                EXCEPT !.rawok = even,
                       !.mems = Force([i \in 1..n |-> [id |-> ids[i], ty |-> x.types[i], sid |-> x.roles[i],
                                                 role |-> Resolved(st, valid, x.roles[i])]]),
                       !.mok = (Len(x.roles) = Len(x.ids) /\ Len(x.ids) = Len(x.types)),
                       !.wild = (\E i \in 1..n : x.types[i] \notin 0..2)]
    IN [nodes |-> MapSeq(g.nodes, node),
        dense |-> IF g.dense = <<>> THEN <<>> ELSE dense(g.dense[1]),
        \* all three arrays equally long
        dok |-> (g.dense = <<>> \/ (Len(g.dense[1].id) = Len(g.dense[1].lat)
                                    /\ Len(g.dense[1].id) = Len(g.dense[1].lon))),
        ways |-> MapSeq(g.ways, way),
        rels |-> MapSeq(g.rels, rel)]

DecodeBlock(m) ==
    LET valid == MapSeq(m.st, IsUtf8)
        gs == MapSeq(m.groups, LAMBDA g : DecodeGroup(m, valid, g))
        size(g) == Len(g.nodes) + Len(g.dense) + Len(g.ways) + Len(g.rels)
    IN [st |-> m.st, groups |-> gs,
        size |-> FoldLeft(LAMBDA a, g : a + size(g), 0, gs),
        sizes |-> MapSeq(gs, size),
        \* some relation has a member of an unknown type
        wild |-> \E i \in DOMAIN gs : \E j \in DOMAIN gs[i].rels : gs[i].rels[j].wild]

KindOf(g, k) ==
    CASE k = "node" -> g.nodes [] k = "dense" -> g.dense [] k = "way" -> g.ways [] k = "rel" -> g.rels

Kinds == <<"node", "dense", "way", "rel">>
KindOfList(what) ==
    CASE what = "nodes" -> "node" [] what = "dense" -> "dense" [] what = "ways" -> "way" [] what = "rels" -> "rel"
=============================================================================
