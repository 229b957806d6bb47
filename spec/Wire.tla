-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The file format at the level of bytes: which frame starts at a byte     *)
(* position of a stream.                                                   *)
(*                                                                         *)
(* A file F is [len, ext, frames, cont]: len its length (5 digits, see     *)
(* Num), ext a sequence of <<start, bytes>> (zero bytes elsewhere).  For   *)
(* streams too long for TLC integers, frames lists the frames instead and  *)
(* ext is empty.  cont tells what the content of a blob stands for, keyed  *)
(* by its bytes [s, e) and whether they are compressed (z); n is its       *)
(* length once it is expanded.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num, Utf8

MaxHeader == 65536
MaxContent == 33554432

RECURSIVE ByteIn(_, _, _)
ByteIn(ext, i, k) ==
    IF k > Len(ext) THEN 0
    ELSE IF i >= ext[k][1] /\ i < ext[k][1] + Len(ext[k][2]) THEN ext[k][2][i - ext[k][1] + 1]
    ELSE ByteIn(ext, i, k + 1)

Byte(F, i) == ByteIn(F.ext, i, 1)

BytesOf(F, s, e) == [i \in 1..(e - s) |-> Byte(F, s + i - 1)]

----------------------------------------------------------------------------
(* Varints: up to ten 7-bit groups, least significant first. *)

\* 2^(7k) for k = 0..9
Pow7 == << <<1,0,0,0,0>>, <<128,0,0,0,0>>, <<16384,0,0,0,0>>, <<0,64,0,0,0>>, <<0,8192,0,0,0>>,
           <<0,0,32,0,0>>, <<0,0,4096,0,0>>, <<0,0,0,16,0>>, <<0,0,0,2048,0>>, <<0,0,0,0,8>> >>

\* The position after the varint that starts at i, 0 if it is cut or too long.
RECURSIVE VarEnd(_, _, _, _)
VarEnd(F, i, lim, n) ==
    IF i >= lim \/ n = 10 THEN 0
    ELSE IF Byte(F, i) < 128 THEN i + 1
    ELSE VarEnd(F, i + 1, lim, n + 1)

RECURSIVE VarVal(_, _, _, _)
VarVal(F, i, e, k) ==
    IF i = e THEN LZero
    ELSE LAdd(LMul(L(Byte(F, i) % 128), Pow7[k]), VarVal(F, i + 1, e, k + 1))

\* [ok, n: next position, v: value modulo 2^64, odd: more than 64 bits]
Varint(F, i, lim) ==
    LET e == VarEnd(F, i, lim, 0) IN
    IF e = 0 THEN [ok |-> FALSE, odd |-> FALSE, n |-> lim, v |-> LZero]
    ELSE [ok |-> TRUE, n |-> e, odd |-> (e = i + 10 /\ Byte(F, e - 1) > 1),
          v |-> IF e = i + 1 THEN <<Byte(F, i), 0, 0, 0, 0>> ELSE VarVal(F, i, e, 1)]

----------------------------------------------------------------------------
(* The fields of a message in [i, lim): [st, fs].  st is "ok", "bad" (no message of any type),  *)
(* or "odd" (unusual but possibly acceptable encodings: groups, numbers beyond 32 bits), or    *)
(* "over": the last field reaches past lim.                                                    *)
(* A field is [num, wt, v, s, e]: v the number (wt 0), [s, e) the bytes (wt 2).                *)

Odd == [st |-> "odd", fs |-> <<>>]
BadMsg == [st |-> "bad", fs |-> <<>>]

RECURSIVE FieldsAcc(_, _, _, _)
FieldsAcc(F, i, lim, acc) ==
    IF i = lim THEN [st |-> "ok", fs |-> acc]
    ELSE
    LET t == Varint(F, i, lim) IN
    IF ~t.ok THEN BadMsg
    ELSE IF t.odd \/ LInt(t.v) = -1 THEN Odd
    ELSE
    LET num == LInt(t.v) \div 8
        wt == LInt(t.v) % 8
        fld(v, s, e) == [num |-> num, wt |-> wt, v |-> v, s |-> s, e |-> e]
        more(v, s, e) == FieldsAcc(F, e, lim, Append(acc, fld(v, s, e)))
    IN
    IF num = 0 \/ wt > 5 THEN BadMsg
    ELSE IF wt = 3 \/ wt = 4 THEN Odd
    ELSE IF wt = 0 THEN LET x == Varint(F, t.n, lim) IN IF ~x.ok THEN BadMsg ELSE IF x.odd THEN Odd ELSE more(x.v, t.n, x.n)
    ELSE IF wt = 1 THEN IF t.n + 8 <= lim THEN more(LZero, t.n, t.n + 8) ELSE BadMsg
    ELSE IF wt = 5 THEN IF t.n + 4 <= lim THEN more(LZero, t.n, t.n + 4) ELSE BadMsg
    ELSE LET x == Varint(F, t.n, lim)
             len == LInt(x.v)
         IN IF ~x.ok THEN BadMsg
            ELSE IF x.odd THEN Odd
            ELSE IF len = -1 \/ len > lim - x.n THEN [st |-> "over", fs |-> Append(acc, fld(LZero, x.n, lim))]
            ELSE more(LZero, x.n, x.n + len)

Fields(F, i, lim) == FieldsAcc(F, i, lim, <<>>)

\* All fields with a number and wire type; a field with another wire type is an unknown field.
Having(fs, num, wt) == SelectSeq(fs, LAMBDA x : x.num = num /\ x.wt = wt)

----------------------------------------------------------------------------
(* BlobHeader: required string type = 1; required int32 datasize = 3.  [st, ty, size] *)

HeaderMsg(F, i, lim) ==
    LET m == Fields(F, i, lim)
        ts == Having(m.fs, 1, 2)
        ds == Having(m.fs, 3, 0)
        res(st, ty, size) == [st |-> st, ty |-> ty, size |-> size]
        strings == [k \in DOMAIN ts |-> BytesOf(F, ts[k].s, ts[k].e)]
    IN
    IF m.st # "ok" THEN res(IF m.st = "over" THEN "bad" ELSE m.st, <<>>, LZero)
    ELSE IF \E k \in DOMAIN strings : ~IsUtf8(strings[k]) THEN res("bad", <<>>, LZero)
    ELSE IF \E k \in DOMAIN ds : ~LFits32(ds[k].v) THEN res("odd", <<>>, LZero)
    ELSE IF ts = <<>> \/ ds = <<>> THEN res("bad", <<>>, LZero)
    ELSE res("ok", Last(strings), Last(ds).v)

(* Blob: optional int32 raw_size = 2; oneof data { bytes 1, 3, 4, 5, 6, 7 }.  [k, s, e] with k  *)
(* "raw", "z", "other", "none", "bad" or "odd".                                                 *)

BlobMsg(F, i, lim) ==
    LET m == Fields(F, i, lim)
        data == SelectSeq(m.fs, LAMBDA x : x.wt = 2 /\ x.num \in {1, 3, 4, 5, 6, 7})
        rs == Having(m.fs, 2, 0)
        res(k) == [k |-> k, s |-> 0, e |-> 0]
    IN
    IF m.st # "ok" THEN res(IF m.st = "over" THEN "bad" ELSE m.st)
    ELSE IF \E k \in DOMAIN rs : ~LFits32(rs[k].v) THEN res("odd")
    ELSE IF data = <<>> THEN res("none")
    ELSE LET d == Last(data) IN
         [k |-> IF d.num = 1 THEN "raw" ELSE IF d.num = 3 THEN "z" ELSE "other", s |-> d.s, e |-> d.e]

----------------------------------------------------------------------------
(* The frame at a position.  [k, ty, size, nx, c]:                                              *)
(*   "end"   nothing there            "err"   not a frame         "hbig"  header too big (size) *)
(*   "cut"   a good header, the content reaches past the end of the stream (ty, size, nx)       *)
(*   "frame" a good header and the content (ty, size, nx, c)       "any"   not specified        *)

NoC == [k |-> "none", s |-> 0, e |-> 0]
Fr(k, ty, size, nx, c) == [k |-> k, ty |-> ty, size |-> size, nx |-> nx, c |-> c]

BytesFrameAt(F, p) ==
    LET len == LInt(F.len) IN
    IF len <= p THEN Fr("end", <<>>, LZero, LZero, NoC)
    ELSE IF len - p < 4 THEN Fr("err", <<>>, LZero, LZero, [NoC EXCEPT !.k = "prefix"])
    ELSE
    LET hs == <<Byte(F, p + 3) + ((Byte(F, p + 2) % 128) * 256),
                (Byte(F, p + 2) \div 128) + (Byte(F, p + 1) * 2) + ((Byte(F, p) % 64) * 512),
                Byte(F, p) \div 64, 0, 0>>
        hsi == LInt(hs)
    IN
    IF hsi = -1 \/ hsi >= MaxHeader THEN Fr("hbig", <<>>, hs, LZero, NoC)
    ELSE IF len - p - 4 < hsi THEN Fr("err", <<>>, LZero, LZero, [NoC EXCEPT !.k = "header"])
    ELSE
    LET c0 == p + 4 + hsi
        h == HeaderMsg(F, p + 4, c0)
    IN
    IF h.st = "bad" THEN Fr("err", <<>>, LZero, LZero, [NoC EXCEPT !.k = "header"])
    ELSE IF h.st = "odd" THEN Fr("any", <<>>, LZero, LZero, NoC)
    ELSE IF LIsNeg(h.size) THEN Fr("err", <<>>, LZero, LZero, [NoC EXCEPT !.k = "header"])
    ELSE
    LET nx == LAdd(L(c0), h.size) IN
    IF ~LLe(nx, F.len) THEN Fr("cut", h.ty, h.size, nx, NoC)
    ELSE Fr("frame", h.ty, h.size, nx, BlobMsg(F, c0, LInt(nx)))

\* Tables are ordered: the first entry from lo on that is not before p (a position, a number).
RECURSIVE FirstAt(_, _, _, _)
FirstAt(q, p, lo, hi) ==
    IF lo > hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF LLe(p, q[m].pos) THEN FirstAt(q, p, lo, m - 1) ELSE FirstAt(q, p, m + 1, hi)

RECURSIVE FirstFrom(_, _, _, _)
FirstFrom(q, s, lo, hi) ==
    IF lo > hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF s <= q[m].s THEN FirstFrom(q, s, lo, m - 1) ELSE FirstFrom(q, s, m + 1, hi)

TableFrameAt(F, p) ==
    LET n == FirstAt(F.frames, p, 1, Len(F.frames))
        i == IF n <= Len(F.frames) /\ F.frames[n].pos = p THEN n ELSE 0
    IN
    IF ~LLe(p, F.len) \/ p = F.len THEN Fr("end", <<>>, LZero, LZero, NoC)
    ELSE IF i = 0 THEN Fr("any", <<>>, LZero, LZero, NoC)
    ELSE LET x == F.frames[i] IN Fr(x.k, x.ty, x.size, x.nx, x.c)

FrameIn(F, p) ==
    IF F.frames # <<>> THEN TableFrameAt(F, p)
    ELSE IF LInt(p) = -1 THEN Fr("end", <<>>, LZero, LZero, NoC)
    ELSE BytesFrameAt(F, LInt(p))

----------------------------------------------------------------------------
(* What a content stands for: [k, m]: "msg" (message number m), "bad" (does not decode),        *)
(* "big" (32 MiB or more), "any" (not known, but always the same).                              *)

ContentIn(F, c) ==
    LET n == IF Len(F.cont) < 40 THEN 1 ELSE FirstFrom(F.cont, c.s, 1, Len(F.cont))
        same == SelectInSeq(SubSeq(F.cont, n, IF Len(F.cont) < 40 \/ n + 9 > Len(F.cont) THEN Len(F.cont) ELSE n + 9),
                            LAMBDA x : x.s = c.s /\ x.e = c.e /\ x.z = (c.k = "z"))
        i == IF same = 0 THEN 0 ELSE n + same - 1
        res(k) == [k |-> k, m |-> 0]
    IN
    IF c.k \in {"none", "other", "bad"} THEN res("bad")
    ELSE IF c.k = "odd" THEN res("any")
    ELSE IF c.k = "raw" /\ c.e - c.s >= MaxContent THEN res("big")
    ELSE IF i = 0 THEN res("any")
    ELSE IF F.cont[i].k # "bad" /\ F.cont[i].n >= MaxContent THEN res("big")
    ELSE [k |-> F.cont[i].k, m |-> F.cont[i].m]
=============================================================================
