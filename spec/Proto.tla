-------------------------------- MODULE Proto --------------------------------
(***************************************************************************)
(* The content of a blob at the level of bytes: which message of Block a   *)
(* protobuf encoded PrimitiveBlock or HeaderBlock stands for.              *)
(*                                                                         *)
(* A parse yields [st, m]: st is "ok" (m is the message), "bad" (no such   *)
(* message: an error has to be reported), or "odd" (encodings about which  *)
(* readers may disagree: groups, values outside of the range of their      *)
(* type, repeated singular messages, messages that reach past the end of   *)
(* the content).  F is a file as in Wire, [s, e) the bytes.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num, Utf8, Wire

LOCAL PMap(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])] \o <<>>

Worse(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "odd" \/ b = "odd" THEN "odd" ELSE "ok"
Worst(sts) == FoldLeft(Worse, "ok", sts)

----------------------------------------------------------------------------
(* Scalar values: [st, v] of the 64 bits of a varint *)

\* v without its lowest bit, shifted down (logical).
LHalf(a) ==
    <<(a[1] \div 2) + ((a[2] % 2) * 16384), (a[2] \div 2) + ((a[3] % 2) * 16384),
      (a[3] \div 2) + ((a[4] % 2) * 16384), (a[4] \div 2) + (((a[5] % 16) % 2) * 16384), (a[5] % 16) \div 2>>

Zag(v) == IF v[1] % 2 = 0 THEN LHalf(v) ELSE LNot(LHalf(v))

Unsigned32(v) == v[3] <= 3 /\ v[4] = 0 /\ v[5] = 0

Scalar(ty, v) ==
    LET fit(b, x) == [st |-> IF b THEN "ok" ELSE "odd", v |-> x] IN
    CASE ty = "i64" -> fit(TRUE, v)
      [] ty = "s64" -> fit(TRUE, Zag(v))
      [] ty = "i32" -> fit(LFits32(v), v)
      [] ty = "u32" -> fit(Unsigned32(v), v)
      [] ty = "s32" -> fit(Unsigned32(v), Zag(v))
      [] ty = "bool" -> fit(v \in {LZero, LOne}, v # LZero)
      [] ty = "enum" -> fit(LFits32(v), LInt(v))

\* An optional or required scalar: the last one counts.  [st, xs] with xs of length 0 or 1.
Single(fs, num, ty) ==
    LET all == PMap(Having(fs, num, 0), LAMBDA x : Scalar(ty, x.v)) IN
    [st |-> Worst(PMap(all, LAMBDA x : x.st)), xs |-> IF all = <<>> THEN <<>> ELSE <<Last(all).v>>]

Need(r) == IF r.xs = <<>> THEN [st |-> "bad", xs |-> <<LZero>>] ELSE r

RECURSIVE Packed(_, _, _, _, _)
Packed(F, i, e, ty, acc) ==
    IF i = e THEN acc
    ELSE LET x == Varint(F, i, e) IN
         IF ~x.ok THEN [acc EXCEPT !.st = "bad"]
         ELSE LET r == Scalar(ty, x.v) IN
              Packed(F, x.n, e, ty, [st |-> Worse(acc.st, IF x.odd THEN "odd" ELSE r.st), xs |-> Append(acc.xs, r.v)])

\* A repeated scalar, packed or not, in the order of its occurrences.
Repeated(F, fs, num, ty) ==
    LET mine == SelectSeq(fs, LAMBDA x : x.num = num /\ x.wt \in {0, 2})
        step(acc, x) ==
            IF x.wt = 2 THEN Packed(F, x.s, x.e, ty, acc)
            ELSE LET r == Scalar(ty, x.v) IN [st |-> Worse(acc.st, r.st), xs |-> Append(acc.xs, r.v)]
    IN FoldLeft(step, [st |-> "ok", xs |-> <<>>], mine)

Texts(F, fs, num) ==
    LET all == PMap(Having(fs, num, 2), LAMBDA x : BytesOf(F, x.s, x.e) \o <<>>) IN
    [st |-> IF \E i \in DOMAIN all : ~IsUtf8(all[i]) THEN "bad" ELSE "ok", xs |-> all]
Text(F, fs, num) ==
    LET r == Texts(F, fs, num) IN [st |-> r.st, xs |-> IF r.xs = <<>> THEN <<>> ELSE <<Last(r.xs)>>]

\* Nested messages; parse(s, e) gives [st, m].
Subs(fs, num, parse(_, _)) ==
    LET all == PMap(Having(fs, num, 2), LAMBDA x : parse(x.s, x.e)) IN
    [st |-> Worst(PMap(all, LAMBDA x : x.st)), xs |-> PMap(all, LAMBDA x : x.m)]
Sub(fs, num, parse(_, _)) ==
    LET r == Subs(fs, num, parse) IN
    IF Len(r.xs) > 1 THEN [st |-> "odd", xs |-> <<>>] ELSE r

\* The message of the fields a, or nothing if there are no fields.
Msg(a, parts, m) == [st |-> Worst(<<a.st>> \o PMap(parts, LAMBDA p : p.st)), m |-> m]

\* The fields of a nested message; one that is cut is no message.
Inner(F, s, e) == LET a == Fields(F, s, e) IN IF a.st = "over" THEN BadMsg ELSE a

----------------------------------------------------------------------------
(* PrimitiveBlock *)

InfoMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        ver == Single(a.fs, 1, "i32")
        ts == Single(a.fs, 2, "i64")
        cs == Single(a.fs, 3, "i64")
        uid == Single(a.fs, 4, "i32")
        sid == Single(a.fs, 5, "u32")
        vis == Single(a.fs, 6, "bool")
    IN Msg(a, <<ver, ts, cs, uid, sid, vis>>,
           [ver |-> ver.xs, ts |-> ts.xs, cs |-> cs.xs, uid |-> uid.xs, sid |-> sid.xs, vis |-> vis.xs])

NodeMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        id == Need(Single(a.fs, 1, "s64"))
        keys == Repeated(F, a.fs, 2, "u32")
        vals == Repeated(F, a.fs, 3, "u32")
        info == Sub(a.fs, 4, LAMBDA x, y : InfoMsg(F, x, y))
        lat == Need(Single(a.fs, 8, "s64"))
        lon == Need(Single(a.fs, 9, "s64"))
    IN IF a.st # "ok" THEN [st |-> a.st, m |-> 0]
       ELSE Msg(a, <<id, keys, vals, info, lat, lon>>,
                [id |-> id.xs[1], keys |-> keys.xs, vals |-> vals.xs, info |-> info.xs, lat |-> lat.xs[1], lon |-> lon.xs[1]])

DenseInfoMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        ver == Repeated(F, a.fs, 1, "i32")
        ts == Repeated(F, a.fs, 2, "s64")
        cs == Repeated(F, a.fs, 3, "s64")
        uid == Repeated(F, a.fs, 4, "s32")
        sid == Repeated(F, a.fs, 5, "s32")
        vis == Repeated(F, a.fs, 6, "bool")
    IN Msg(a, <<ver, ts, cs, uid, sid, vis>>,
           [ver |-> ver.xs, ts |-> ts.xs, cs |-> cs.xs, uid |-> uid.xs, sid |-> sid.xs, vis |-> vis.xs])

DenseMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        id == Repeated(F, a.fs, 1, "s64")
        info == Sub(a.fs, 5, LAMBDA x, y : DenseInfoMsg(F, x, y))
        lat == Repeated(F, a.fs, 8, "s64")
        lon == Repeated(F, a.fs, 9, "s64")
        kv == Repeated(F, a.fs, 10, "i32")
    IN Msg(a, <<id, info, lat, lon, kv>>,
           [id |-> id.xs, info |-> info.xs, lat |-> lat.xs, lon |-> lon.xs, kv |-> kv.xs])

WayMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        id == Need(Single(a.fs, 1, "i64"))
        keys == Repeated(F, a.fs, 2, "u32")
        vals == Repeated(F, a.fs, 3, "u32")
        info == Sub(a.fs, 4, LAMBDA x, y : InfoMsg(F, x, y))
        refs == Repeated(F, a.fs, 8, "s64")
        lat == Repeated(F, a.fs, 9, "s64")
        lon == Repeated(F, a.fs, 10, "s64")
    IN IF a.st # "ok" THEN [st |-> a.st, m |-> 0]
       ELSE Msg(a, <<id, keys, vals, info, refs, lat, lon>>,
                [id |-> id.xs[1], keys |-> keys.xs, vals |-> vals.xs, info |-> info.xs,
                 refs |-> refs.xs, lat |-> lat.xs, lon |-> lon.xs])

RelMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        id == Need(Single(a.fs, 1, "i64"))
        keys == Repeated(F, a.fs, 2, "u32")
        vals == Repeated(F, a.fs, 3, "u32")
        info == Sub(a.fs, 4, LAMBDA x, y : InfoMsg(F, x, y))
        roles == Repeated(F, a.fs, 8, "i32")
        ids == Repeated(F, a.fs, 9, "s64")
        types == Repeated(F, a.fs, 10, "enum")
    IN IF a.st # "ok" THEN [st |-> a.st, m |-> 0]
       ELSE Msg(a, <<id, keys, vals, info, roles, ids, types>>,
                [id |-> id.xs[1], keys |-> keys.xs, vals |-> vals.xs, info |-> info.xs,
                 roles |-> roles.xs, ids |-> ids.xs, types |-> types.xs])

ChangeSetMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        id == Need(Single(a.fs, 1, "i64"))
    IN IF a.st # "ok" THEN [st |-> a.st, m |-> 0] ELSE Msg(a, <<id>>, 0)

GroupMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        nodes == Subs(a.fs, 1, LAMBDA x, y : NodeMsg(F, x, y))
        dense == Sub(a.fs, 2, LAMBDA x, y : DenseMsg(F, x, y))
        ways == Subs(a.fs, 3, LAMBDA x, y : WayMsg(F, x, y))
        rels == Subs(a.fs, 4, LAMBDA x, y : RelMsg(F, x, y))
        chs == Subs(a.fs, 5, LAMBDA x, y : ChangeSetMsg(F, x, y))
    IN Msg(a, <<nodes, dense, ways, rels, chs>>,
           [nodes |-> nodes.xs, dense |-> dense.xs, ways |-> ways.xs, rels |-> rels.xs])

StringTableMsg(F, s, e) ==
    LET a == Inner(F, s, e) IN
    [st |-> a.st, m |-> PMap(Having(a.fs, 1, 2), LAMBDA x : BytesOf(F, x.s, x.e) \o <<>>)]

\* At the top level a nested message (but not a string) may reach past the end of the content.
Outer(F, s, e, nested) ==
    LET a == Fields(F, s, e) IN
    IF a.st # "over" THEN a
    ELSE IF Last(a.fs).num \in nested THEN Odd ELSE BadMsg

BlockMsg(F, s, e) ==
    LET a == Outer(F, s, e, {1, 2})
        st == Sub(a.fs, 1, LAMBDA x, y : StringTableMsg(F, x, y))
        groups == Subs(a.fs, 2, LAMBDA x, y : GroupMsg(F, x, y))
        gran == Single(a.fs, 17, "i32")
        dgran == Single(a.fs, 18, "i32")
        lato == Single(a.fs, 19, "i64")
        lono == Single(a.fs, 20, "i64")
    IN IF a.st # "ok" THEN [st |-> a.st, m |-> 0]
       ELSE IF Having(a.fs, 1, 2) = <<>> THEN [st |-> "bad", m |-> 0]
       ELSE LET all == Worst(<<st.st, groups.st, gran.st, dgran.st, lato.st, lono.st>>) IN
            [st |-> all,
             m |-> IF all # "ok" THEN 0
                   ELSE [kind |-> "data", st |-> st.xs[1], gran |-> gran.xs, dgran |-> dgran.xs,
                         lato |-> lato.xs, lono |-> lono.xs, groups |-> groups.xs]]

----------------------------------------------------------------------------
(* HeaderBlock *)

BBoxMsg(F, s, e) ==
    LET a == Inner(F, s, e)
        xs == [i \in 1..4 |-> Need(Single(a.fs, i, "s64"))] \o <<>>
    IN IF a.st # "ok" THEN [st |-> a.st, m |-> 0]
       ELSE Msg(a, xs, PMap(xs, LAMBDA x : x.xs[1]))

HeaderBlockMsg(F, s, e) ==
    LET a == Outer(F, s, e, {1})
        bbox == Sub(a.fs, 1, LAMBDA x, y : BBoxMsg(F, x, y))
        req == Texts(F, a.fs, 4)
        optf == Texts(F, a.fs, 5)
        prog == Text(F, a.fs, 16)
        source == Text(F, a.fs, 17)
        rurl == Text(F, a.fs, 34)
        rts == Single(a.fs, 32, "i64")
        rseq == Single(a.fs, 33, "i64")
    IN Msg(a, <<bbox, req, optf, prog, source, rurl, rts, rseq>>,
           [kind |-> "header", bbox |-> bbox.xs, req |-> req.xs, optf |-> optf.xs, prog |-> prog.xs,
            source |-> source.xs, rurl |-> rurl.xs, rts |-> rts.xs, rseq |-> rseq.xs])

ContentMsg(F, s, e, want) == IF want = "data" THEN BlockMsg(F, s, e) ELSE HeaderBlockMsg(F, s, e)
=============================================================================
