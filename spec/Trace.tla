-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every recorded step of the real library has to be a   *)
(* step of the specification.  TRACE names a file with one step per line   *)
(* (operation, arguments, observed outcome), FILES the streams that were   *)
(* read, MSGS the messages stored in them.                                 *)
(*                                                                         *)
(* The reader steps are the operators of Stream, the iterator steps walk   *)
(* the lists of elements defined by Block, whole-stream operations and     *)
(* queries have to deliver what Files defines, parallel reading is the     *)
(* state machine of Par.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, IOUtils, Json, Num, Wire, Proto, Block, Iter, Par, Errors

VARIABLES l,      \* next line of the trace
          rd,     \* name -> blob reader
          blk,    \* name -> message number of a decoded block
          its,    \* name -> iterator
          itm,    \* name -> group or element
          ord,    \* message number -> order in which the flat iterator walks the block
          ix,     \* name -> file of an indexed reader
          bind,   \* observed meaning of contents about which nothing is specified
          kb      \* name -> kept blob [f, fr, off]

vars == <<l, rd, blk, its, itm, ord, ix, bind, kb, pf, pdone>>

Lines == ndJsonDeserialize(IOEnv.TRACE)
Files == ndJsonDeserialize(IOEnv.FILES)
Given == ndJsonDeserialize(IOEnv.MSGS)

\* Messages are given, or as bytes (of file f, or b) that are to be understood as a want message.
Parsed == [m \in DOMAIN Given |->
             LET g == Given[m] IN
             IF g.kind # "bytes" THEN [st |-> "ok", m |-> g]
             ELSE IF g.f > 0 THEN ContentMsg(Files[g.f], g.s, g.e, g.want)
             ELSE ContentMsg([ext |-> << <<0, g.b>> >>], 0, Len(g.b), g.want)]

NoMsg == [kind |-> "none"]
Msgs == [m \in DOMAIN Given |-> IF Parsed[m].st = "ok" THEN Parsed[m].m ELSE NoMsg]

Decoded == [m \in DOMAIN Given |->
              IF Msgs[m].kind = "data" THEN DecodeBlock(Msgs[m])
              ELSE [st |-> <<>>, groups |-> <<>>, size |-> 0, sizes |-> <<>>, wild |-> FALSE]]

----------------------------------------------------------------------------
(* Instances *)

TFrameAt(f, p) == FrameIn(Files[f], p)
TEndOf(f) == Files[f].len
TIsNeg(p) == p[5] < 0 \/ p[5] > 7
TIsFar(p) == p[3] >= 8192 \/ p[4] > 0 \/ p[5] > 0        \* from 2^43 on
TPlus(p, q) == LAdd(p, q)
TLe(p, q) == LLe(p, q)

S == INSTANCE Stream WITH FrameAt <- TFrameAt, EndOf <- TEndOf, Plus <- TPlus, Le <- TLe,
                          IsNeg <- TIsNeg, IsFar <- TIsFar, Zero <- LZero

OsmHeader == <<79, 83, 77, 72, 101, 97, 100, 101, 114>>
OsmData == <<79, 83, 77, 68, 97, 116, 97>>
TypeKind(ty) == IF ty = OsmHeader THEN "H" ELSE IF ty = OsmData THEN "D" ELSE "U"

\* The content of a frame under an interpretation H or D: "msg" m, "bad", "big", "any".
ContentAs(f, fr, kind) ==
    LET c == ContentIn(Files[f], fr.c)
        want == IF kind = "D" THEN "data" ELSE "header"
        nothing(k) == [k |-> k, m |-> 0]
    IN IF c.k # "msg" THEN c
       ELSE IF Given[c.m].kind = "bytes" /\ Given[c.m].want # want THEN nothing("any")
       ELSE IF Parsed[c.m].st # "ok" THEN nothing(IF Parsed[c.m].st = "bad" THEN "bad" ELSE "any")
       ELSE IF Msgs[c.m].kind # want THEN nothing("any") ELSE c

TContentAt(f, fr) ==
    LET kind == TypeKind(fr.ty)
        c == ContentAs(f, fr, kind)
    IN CASE kind = "U" -> [k |-> "unk", m |-> 0]
         [] kind = "D" -> c
         [] c.k = "msg" -> [c EXCEPT !.k = "hdr"]
         [] c.k \in {"bad", "big"} -> [c EXCEPT !.k = "hbad"]
         [] OTHER -> [c EXCEPT !.k = "hany"]

TGroups(m) == Decoded[m].groups
TIdOf(x) == x.id
TRefsOf(x) == x.refs

FS == INSTANCE Files WITH FrameAt <- TFrameAt, Le <- TLe, ContentAt <- TContentAt,
                          Groups <- TGroups, IdOf <- TIdOf, RefsOf <- TRefsOf

----------------------------------------------------------------------------
(* Does an observation match? *)

\* A float value scaled to integer nanodegrees; beyond 2^45 it is not exact.
MatchDeg(o, n) == LBelow45(n) => o = n

MatchPos(o, p) ==
    /\ o.nlat = p.nlat /\ o.nlon = p.nlon
    /\ o.dlat = p.dlat /\ o.dlon = p.dlon
    /\ MatchDeg(o.flat, p.nlat) /\ MatchDeg(o.flon, p.nlon)

\* What is compared: FOCUS names the aspects of an element that matter to the property at hand.
FocusList == ndJsonDeserialize(IOEnv.FOCUS)[1].on
KnownList == ndJsonDeserialize(IOEnv.FOCUS)[1].known
On(a) == \E i \in DOMAIN FocusList : FocusList[i] \in {a, "all"}
\* What errors say in detail is compared only where it is asked for.
OnErr == \E i \in DOMAIN FocusList : FocusList[i] = "err"

MatchStr(o, r) ==
    IF r.ok THEN o.ok /\ o.s = r.s
    ELSE /\ ~o.ok /\ o.k = r.k /\ Len(o.i) = 1 /\ LSame32(o.i[1], r.i)
         /\ OnErr => o.e[1].k = o.k /\ o.e[1].sz = o.i /\ ErrSound(o.e[1])

MatchInfo(o, x) ==
    /\ Len(o) = Len(x)
    /\ Len(x) = 1 =>
        /\ On("info") =>
            /\ o[1].ver = x[1].ver /\ o[1].ts = x[1].ts /\ o[1].cs = x[1].cs /\ o[1].uid = x[1].uid
            /\ o[1].vis = x[1].vis /\ o[1].del = ~x[1].vis
        /\ Len(o[1].user) = Len(x[1].user)
        /\ Len(x[1].user) = 1 => MatchStr(o[1].user[1], x[1].user[1])

Exactly(h, n) == h = <<n, n>>

MatchMember(o, x) ==
    /\ On("mems") => o.id = x.id /\ o.sid = x.sid /\ (x.ty \in 0..2 => o.ty = x.ty)
    /\ On("role") => MatchStr(o.role, x.role)

MatchMembers(o, x) == Len(o) = Len(x) /\ \A i \in DOMAIN x : MatchMember(o[i], x[i])

MatchEl(o, x) ==
    /\ o.k = x.k
    /\ On("id") => o.id = x.id /\ (x.k = "dense" => o.id2 = x.id)
    /\ On("tags") => o.tags = x.tags
    /\ On("raw") => o.raw = x.raw
    /\ On("len") => (x.tok => Exactly(o.tl, Len(x.tags))) /\ (x.rawok => Exactly(o.rl, Len(x.raw)))
    /\ On("info") \/ On("user") => MatchInfo(o.info, x.info)
    /\ On("strtab") => (x.k # "dense" => o.nst = x.nst)
    /\ x.k \in {"node", "dense"} => (On("pos") => MatchPos(o, x.pos[1]))
    /\ x.k = "way" =>
        /\ On("refs") => o.refs = x.refs /\ o.rrefs = x.rrefs
        /\ On("len") => Exactly(o.fl, Len(x.refs)) /\ (x.lok => Exactly(o.ll, Len(x.locs)))
        /\ (On("pos") \/ On("locs")) => Len(o.locs) = Len(x.locs) /\ \A i \in DOMAIN x.locs : MatchPos(o.locs[i], x.locs[i])
    /\ x.k = "rel" =>
        /\ On("mems") \/ On("role") => MatchMembers(o.mems, x.mems)
        /\ On("len") => (x.mok => Exactly(o.ml, Len(x.mems)))

\* Lists of observed elements (full: complete projections, otherwise <<kind, id>>).
ObsKind(o, full) == IF full THEN o.k ELSE o[1]
MatchObs(o, x, full) == IF full THEN MatchEl(o, x) ELSE o[1] = x.k /\ o[2] = x.id

\* els runs through the groups gs (each a sequence of lists, one list per kind) in order; within a
\* group the order between kinds is free.  partial: els may end early.
MatchGroups(els, gs, full, partial) ==
    LET size(g) == FoldLeft(LAMBDA a, s : a + Len(s), 0, g)
        kindOf(s) == s[1].k
        okGroup(sub, g) ==
            \A j \in DOMAIN g : g[j] # <<>> =>
                LET mine == SelectSeq(sub, LAMBDA o : ObsKind(o, full) = kindOf(g[j])) IN
                /\ Len(mine) <= Len(g[j])
                /\ \A i \in DOMAIN mine : MatchObs(mine[i], g[j][i], full)
        \* observed elements of kinds that do not occur in the group
        noOther(sub, g) ==
            \A i \in DOMAIN sub : \E j \in DOMAIN g : g[j] # <<>> /\ ObsKind(sub[i], full) = kindOf(g[j])
        step(a, g) ==
            IF ~a.ok THEN a
            ELSE LET n == Min2(size(g), Len(els) - a.at)
                     sub == SubSeq(els, a.at + 1, a.at + n)
                 IN [ok |-> okGroup(sub, g) /\ noOther(sub, g) /\ (partial \/ n = size(g)), at |-> a.at + n]
        r == FoldLeft(step, [ok |-> TRUE, at |-> 0], gs)
    IN r.ok /\ r.at = Len(els)

GroupLists(m) == [j \in DOMAIN Decoded[m].groups |->
                    LET g == Decoded[m].groups[j] IN <<g.nodes, g.dense, g.ways, g.rels>>]

MatchBlock(els, m, full) == MatchGroups(els, GroupLists(m), full, FALSE)

\* els is exactly the elements of the blocks ms (with nst taken per block)
MatchBlocks(els, ms, full) ==
    LET step(a, m) ==
          IF ~a.ok THEN a
          ELSE LET n == Decoded[m].size IN
               IF a.at + n > Len(els) THEN [a EXCEPT !.ok = FALSE]
               ELSE [ok |-> MatchBlock(SubSeq(els, a.at + 1, a.at + n), m, full), at |-> a.at + n]
        r == FoldLeft(step, [ok |-> TRUE, at |-> 0], ms)
    IN r.ok /\ r.at = Len(els)

SizeOf(ms) == FoldLeft(LAMBDA a, m : a + Decoded[m].size, 0, ms)

\* els is the elements of some first few of the blocks
MatchSomeBlocks(els, ms, full) ==
    \E k \in 0..Len(ms) : SizeOf(SubSeq(ms, 1, k)) = Len(els) /\ MatchBlocks(els, SubSeq(ms, 1, k), full)

\* els starts with the elements of the blocks
MatchFirstBlocks(els, ms, full) ==
    SizeOf(ms) <= Len(els) /\ MatchBlocks(SubSeq(els, 1, SizeOf(ms)), ms, full)

MatchHeader(o, h) ==
    /\ o.req = h.req /\ o.optf = h.optf
    /\ o.prog = h.prog /\ o.source = h.source
    /\ o.rts = h.rts /\ o.rseq = h.rseq /\ o.rurl = h.rurl
    /\ Len(o.bbox) = Len(h.bbox)
    /\ Len(h.bbox) = 1 => \A i \in 1..4 : MatchDeg(o.bbox[1][i], h.bbox[1][i])

----------------------------------------------------------------------------
(* Steps *)

e == Lines[l]
Is(op) == l <= Len(Lines) /\ Lines[l].op = op /\ l' = l + 1
Panicked == e.out.t = "panic"

\* Memory: proportional to the input plus the limits of the format (in KiB).
MemOkFor(f) == e.mem <= 131072 + 4 * (IF LInt(Files[f].len) = -1 THEN 0 ELSE LInt(Files[f].len) \div 1024)
MemOk == MemOkFor(e.f)

Set(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]

Flt == IF e.out.fired = 0 THEN "no"
       ELSE IF e.fault.kind = "Interrupted" THEN "retry" ELSE "yes"

\* Where the stream stopped for once (see Stream), while a frame was to be read, or only its header.
StopIn(s, p, header) ==
    IF e.fault.kind # "Pause" \/ e.out.fired = 0 THEN Flt
    ELSE LET fr == TFrameAt(s.f, p) IN
         IF LLe(e.out.fpos, p) THEN "ended"
         ELSE IF fr.k = "frame" /\ LLe(fr.nx, IF header THEN LAdd(e.out.fpos, fr.size) ELSE e.out.fpos) THEN "no"
         ELSE "short"

\* The error o of a call in which the stream failed.
FaultErr(o) == ErrFault(o, IF e.out.fired = 1 THEN e.out.fon ELSE "", e.fault.kind, e.fault.os)

\* The error o stands for one of the frames frs of file f.
FrameErr(o, f, fr) ==
    CASE fr.k = "hbig" -> ErrHeaderBig(o, fr.size)
      [] fr.k = "err" -> IF fr.c.k = "prefix" THEN ErrPrefix(o) ELSE fr.c.k = "header" => ErrFormat(o)
      [] fr.k = "cut" -> ErrFormat(o)
      [] OTHER -> TRUE

\* The content of a frame, read as kind, does not decode.
ContentErr(o, f, fr, kind) ==
    LET c == ContentAs(f, fr, kind) IN
    CASE c.k = "big" /\ fr.c.k = "raw" -> ErrContentBig(o, L(fr.c.e - fr.c.s), TRUE)
      [] c.k = "big" -> ErrContentBig(o, L(MaxContent), FALSE)
      [] fr.c.k \in {"none", "other"} -> ErrEmpty(o)
      [] c.k = "bad" -> ErrFormat(o)
      [] OTHER -> TRUE

AnyErrIn(o, f, frs) ==
    /\ ErrSound(o)
    /\ \/ frs = <<>>
       \/ \E i \in DOMAIN frs :
            IF frs[i].k = "frame" THEN ContentErr(o, f, frs[i], TypeKind(frs[i].ty)) ELSE FrameErr(o, f, frs[i])

Empty == [x \in {} |-> 0]

Init ==
    /\ l = 1 /\ rd = Empty /\ blk = Empty /\ its = Empty /\ itm = Empty /\ ord = Empty
    /\ ix = Empty /\ bind = Empty /\ kb = Empty
    /\ PInit

\* A new session.
Reset ==
    /\ Is("reset")
    /\ rd' = Empty /\ blk' = Empty /\ its' = Empty /\ itm' = Empty /\ ord' = Empty
    /\ ix' = Empty /\ bind' = Empty /\ kb' = Empty
    /\ pf' = [live |-> {}, pure |-> {}, elems |-> <<>>] /\ pdone' = FALSE

----------------------------------------------------------------------------
(* Blob readers *)

NoBlock == UNCHANGED <<its, itm, ord, ix, kb, pf, pdone>>

\* Opening fails only if there is no such file or the stream fails.
OpenErr ==
    IF e.missing THEN OnErr => ErrSound(e.out) /\ ErrNoFile(e.out)
    ELSE Flt # "no" /\ (OnErr => ErrSound(e.out) /\ FaultErr(e.out))

Open ==
    /\ Is("open") /\ ~Panicked
    /\ \/ /\ e.out.t = "ok" /\ Flt # "yes" /\ ~e.missing
          /\ LET known == e.via \notin {"new", "bufnew"}
                 mm == e.via \in {"mmap", "mmapfile"}
             IN rd' = Set(rd, e.h, S!Reader(e.f, e.at, known, mm))
       \/ e.out.t = "err" /\ OpenErr /\ UNCHANGED rd
    /\ UNCHANGED <<blk, bind>> /\ NoBlock

\* The decoded content d of a frame under the interpretation e.as, or else its own type.
DecKind(fr) == IF e.as = "" THEN TypeKind(fr.ty) ELSE IF e.as = "header" THEN "H" ELSE "D"

MatchData(d, m) ==
    \/ d.t = "data" /\ MatchBlock(d.els, m, e.dec = "full")
    \/ d.t = "count" /\ d.n = Decoded[m].size
    \/ d.t = "kept"

\* What was observed of an unspecified content, and the key under which it is remembered.
Seen(d) == IF d.t = "err" THEN [t |-> "err"] ELSE d
\* (a frame is known by where it ends: odd contents have no bounds)
KeyOf(f, fr) == <<f, fr.nx, DecKind(fr), e.dec>>
Open_(f, fr) == LET c == ContentAs(f, fr, DecKind(fr)) IN e.dec # "no" /\ DecKind(fr) # "U" /\ c.k \notin {"bad", "big", "msg"}

DecodeOk(f, fr, d) ==
    LET kind == DecKind(fr)
        c == ContentAs(f, fr, kind)
        key == KeyOf(f, fr)
        err == d.t = "err" /\ (OnErr => ErrSound(d) /\ ContentErr(d, f, fr, kind))
    IN
    IF e.dec = "no" THEN d.t = "no"
    \* a blob of unknown type is not decoded, but damage may be noticed
    ELSE IF kind = "U" THEN (d.t = "unk" /\ d.ty = fr.ty) \/ (err /\ fr.c.k \in {"bad", "odd"})
    ELSE CASE c.k = "bad" -> err
           [] c.k = "big" -> err /\ d.k = "mbig"
           [] c.k = "msg" /\ kind = "H" -> d.t = "hdr" /\ MatchHeader(d.h, Msgs[c.m])
           [] c.k = "msg" /\ kind = "D" -> MatchData(d, c.m)
           \* not specified, but the same every time and from every reader
           [] OTHER -> key \in DOMAIN bind => bind[key] = Seen(d)

Decode(f, fr, d) ==
    /\ DecodeOk(f, fr, d)
    /\ bind' = IF Open_(f, fr) THEN Set(bind, KeyOf(f, fr), Seen(d)) ELSE bind
    /\ blk' = IF d.t = "kept" THEN Set(blk, e.keep, ContentAs(f, fr, DecKind(fr)).m) ELSE blk

\* The observed outcome o is the allowed outcome r of reader s, and the content is right.
MatchOut(s, r) ==
    LET o == e.out IN
    CASE r.t = "none" -> o.t = "none" /\ UNCHANGED <<blk, bind>>
      [] r.t = "ok" -> o.t = "ok" /\ UNCHANGED <<blk, bind>>
      [] r.t = "pos" -> o.t = "pos" /\ o.pos = r.pos /\ UNCHANGED <<blk, bind>>
      [] r.t = "err" -> /\ o.t = "err" /\ UNCHANGED <<blk, bind>>
                        /\ r.k = "hbig" => ErrHeaderBig(o, r.sz)
                        /\ OnErr => ErrSound(o) /\ CASE r.k = "frame" -> FrameErr(o, s.f, r.fr)
                                                      [] r.k = "format" -> ErrFormat(o)
                                                      [] r.k = "seek" -> ErrSeek(o)
                                                      [] r.k = "fault" -> FaultErr(o)
                                                      [] r.k = "none" -> ErrNoBlob(o)
                                                      [] OTHER -> TRUE
      [] r.t = "blob" -> /\ o.t = "blob" /\ o.ty = r.fr.ty /\ o.off = r.off
                         /\ o.tk = TypeKind(r.fr.ty)
                         /\ Decode(s.f, r.fr, o.dec)
      [] r.t = "hdr" -> /\ o.t = "hdr" /\ o.ty = r.fr.ty /\ o.off = r.off /\ o.size = r.fr.size
                        /\ o.tk = TypeKind(r.fr.ty)
                        /\ UNCHANGED <<blk, bind>>
      \* nothing specified, except that an offset is never wrong
      [] r.t = "any" -> /\ o.t \in {"blob", "hdr"}
                        /\ o.off # <<>> => LET fr == TFrameAt(s.f, o.off[1]) IN
                                           fr.k = "any" \/ (fr.k \in {"frame", "cut"} /\ fr.ty = o.ty)
                        /\ UNCHANGED <<blk, bind>>

\* A blob that is kept: of frame fr, or observed (ty, off) where nothing is specified.
KeptBlob(f, o) ==
    IF o.t = "blob" THEN [f |-> f, known |-> TRUE, fr |-> o.fr, ty |-> o.fr.ty, off |-> o.off]
    ELSE [f |-> f, known |-> FALSE, fr |-> Fr("any", <<>>, LZero, LZero, NoC), ty |-> e.out.ty, off |-> e.out.off]

\* When blobs cannot be read damaged content may show as an error of the read instead.
ReaderStep(h, allowed) ==
    /\ ~Panicked /\ MemOkFor(rd[h].f)
    /\ \E r \in allowed : /\ MatchOut(rd[h], r.o) /\ rd' = Set(rd, h, r.s)
                          /\ kb' = IF e.keepb = "" \/ e.out.t # "blob" THEN kb
                                   ELSE Set(kb, e.keepb, KeptBlob(rd[h].f, r.o))
    /\ UNCHANGED <<its, itm, ord, ix, pf, pdone>>

Have == e.h \in DOMAIN rd

NextBlob == Is("next") /\ Have /\ ReaderStep(e.h, S!Next(rd[e.h], StopIn(rd[e.h], rd[e.h].pos, FALSE)))
NextHdr == Is("hdr") /\ Have /\ ReaderStep(e.h, S!Hdr(rd[e.h], StopIn(rd[e.h], rd[e.h].pos, TRUE)))
SeekTo == Is("seek") /\ Have /\ ReaderStep(e.h, S!Seek(rd[e.h], e.to, Flt))
SeekRaw ==
    /\ Is("seekraw") /\ Have
    /\ ReaderStep(e.h, S!SeekRaw(rd[e.h], e.from, e.d, IF e.out.t = "pos" THEN e.out.pos ELSE LZero, Flt))
FromOffset == Is("from") /\ Have /\ ReaderStep(e.h, S!From(rd[e.h], e.to, StopIn(rd[e.h], e.to, FALSE)))

Clone ==
    /\ Is("clone") /\ e.out.t = "ok" /\ Have
    /\ rd' = Set(rd, e.new, rd[e.h])
    /\ UNCHANGED <<blk, bind>> /\ NoBlock

Drop ==
    /\ Is("drop") /\ e.out.t = "ok"
    /\ rd' = [x \in DOMAIN rd \ {e.h} |-> rd[x]]
    /\ UNCHANGED <<blk, bind>> /\ NoBlock

----------------------------------------------------------------------------
(* Kept blobs: values of their own, whatever becomes of the reader.  They can be decoded any    *)
(* number of times, under both interpretations, by clones, and by several threads at once.      *)

SameBlob(o, b) ==
    /\ o.t = "blob" /\ o.ty = b.ty /\ o.off = b.off /\ o.tk = TypeKind(b.ty)
    /\ b.known => DecodeOk(b.f, b.fr, o.dec)

HaveB == e.b \in DOMAIN kb

BDec ==
    /\ Is("bdec") /\ HaveB /\ ~Panicked /\ MemOkFor(kb[e.b].f)
    /\ SameBlob(e.out, kb[e.b])
    /\ IF kb[e.b].known THEN Decode(kb[e.b].f, kb[e.b].fr, e.out.dec) ELSE UNCHANGED <<blk, bind>>
    /\ UNCHANGED <<rd>> /\ NoBlock

BClone ==
    /\ Is("bclone") /\ HaveB /\ e.out.t = "ok"
    /\ kb' = Set(kb, e.new, kb[e.b])
    /\ UNCHANGED <<rd, blk, bind, its, itm, ord, ix, pf, pdone>>

BDecPar ==
    /\ Is("bdecpar") /\ e.out.t = "blobs" /\ \A i \in DOMAIN e.bs : e.bs[i] \in DOMAIN kb
    /\ \A k \in DOMAIN e.out.all : SameBlob(e.out.all[k].o, kb[e.bs[e.out.all[k].i]])
    \* unspecified contents, too, are the same for all
    /\ \A k, n \in DOMAIN e.out.all : e.out.all[k].i = e.out.all[n].i => Seen(e.out.all[k].o.dec) = Seen(e.out.all[n].o.dec)
    /\ UNCHANGED <<rd, blk, bind>> /\ NoBlock

----------------------------------------------------------------------------
(* Whole-stream reading *)

\* The error of a whole operation is that of one of the frames frs, if they are given.
ResErr(frs) ==
    OnErr => IF e.missing THEN ErrSound(e.out.res) /\ ErrNoFile(e.out.res)
             ELSE IF Flt # "no" THEN ErrSound(e.out.res)
             ELSE AnyErrIn(e.out.res, e.f, frs)

ForEach ==
    /\ Is("foreach") /\ ~Panicked /\ MemOk
    /\ LET w == FS!Walk(e.f, e.at)
           r == FS!SeqRead(e.f, w)
           els == e.out.els
           full == e.full
           ok == e.out.res.t = "ok"
           normal == CASE r.end = "ok" -> ok /\ MatchBlocks(els, r.blocks, full)
                       [] r.end = "err" -> ~ok /\ MatchBlocks(els, r.blocks, full)
                       [] r.end = "any" -> MatchFirstBlocks(els, r.blocks, full)
           failed == ~ok /\ (MatchSomeBlocks(els, r.blocks, full)
                             \/ (r.end = "any" /\ MatchFirstBlocks(els, r.blocks, full)))
       IN IF e.missing THEN ~ok /\ els = <<>> /\ ResErr(<<>>)
          ELSE /\ CASE Flt = "no" -> normal
                    [] Flt = "yes" -> failed
                    [] Flt = "retry" -> normal \/ failed
               /\ (~ok /\ r.end = "err") => ResErr(SubSeq(FS!Culprits(e.f, e.at, w), 1, 1))
    /\ UNCHANGED <<rd, blk, bind>> /\ NoBlock

----------------------------------------------------------------------------
(* Parallel map/reduce: parbegin, then parmap, parid, parred in the order they happened, parend. *)

NotPar == UNCHANGED <<rd, blk, its, itm, ord, ix, bind, kb>>

ParBegin ==
    /\ Is("parbegin")
    /\ pf' = [live |-> {}, pure |-> {}, elems |-> <<>>] /\ pdone' = FALSE
    /\ NotPar

ParMap == Is("parmap") /\ PMap(e.t, e.el) /\ NotPar
ParIdent == Is("parid") /\ PIdent(e.t) /\ NotPar
ParReduce == Is("parred") /\ PReduce(e.x, e.y, e.t) /\ NotPar

Briefs(ms) ==
    FS!Joined([i \in DOMAIN ms |-> FS!Joined([j \in DOMAIN Decoded[ms[i]].groups |->
        LET g == Decoded[ms[i]].groups[j]
            all == g.nodes \o g.dense \o g.ways \o g.rels
        IN [n \in DOMAIN all |-> <<all[n].k, all[n].id>>]])])

ParEnd ==
    /\ Is("parend") /\ ~Panicked /\ MemOk
    /\ LET w == FS!Walk(e.f, e.at)
           r == FS!SeqRead(e.f, w)
           all == Briefs(FS!AllBlocks(e.f, w))
           ok == e.out.res.t = "ok"
           complete == ok /\ PResultOk(e.out.res.tok, all)
           failed == ~ok /\ (IF w.end = "any" \/ FS!SomeAny(e.f, w) THEN UNCHANGED pf /\ pdone' = TRUE
                             ELSE PResultErr(all))
           open == IF ok THEN e.out.res.tok \in pf.live /\ UNCHANGED pf /\ pdone' = TRUE ELSE failed
           normal == CASE r.end = "ok" -> complete
                       [] r.end = "err" -> failed
                       [] r.end = "any" -> open
       IN IF e.missing THEN ~ok /\ ResErr(<<>>) /\ UNCHANGED pf /\ pdone' = TRUE
          \* the panic of the caller's closure, in its bomb-th call, comes through
          ELSE IF e.out.res.t = "bomb" THEN e.bomb > 0 /\ Len(pf.elems) >= e.bomb - 1 /\ failed
          ELSE /\ CASE Flt = "no" -> normal
                    [] Flt = "yes" -> failed
                    [] Flt = "retry" -> normal \/ failed
               /\ e.bomb > 0 => Len(pf.elems) < e.bomb
               /\ (~ok /\ r.end = "err") => ResErr(IF FS!SomeAny(e.f, w) THEN <<>> ELSE FS!Culprits(e.f, e.at, w))
    /\ NotPar

\* A parallel run whose values are lists of elements and whose reduction is concatenation: only the
\* result is observed.
ParList ==
    /\ Is("parlist") /\ ~Panicked /\ MemOk
    /\ LET w == FS!Walk(e.f, e.at)
           r == FS!SeqRead(e.f, w)
           ok == e.out.res.t = "ok"
           normal == CASE r.end = "ok" -> ok /\ SameBag(e.out.els, Briefs(r.blocks))
                       [] r.end = "err" -> ~ok
                       [] r.end = "any" -> TRUE
       IN CASE Flt = "no" -> normal
            [] Flt = "yes" -> ~ok
            [] Flt = "retry" -> normal \/ ~ok
    /\ UNCHANGED <<rd, blk, bind>> /\ NoBlock

----------------------------------------------------------------------------
(* Indexed reader *)

XOpen ==
    /\ Is("xopen") /\ ~Panicked
    /\ \/ e.out.t = "ok" /\ Flt # "yes" /\ ~e.missing /\ ix' = Set(ix, e.h, e.f)
       \/ e.out.t = "err" /\ OpenErr /\ UNCHANGED ix
    /\ UNCHANGED <<rd, blk, its, itm, ord, bind, kb, pf, pdone>>

XSame == UNCHANGED <<rd, blk, its, itm, ord, ix, bind, kb, pf, pdone>>

\* The call ended with the panic of a closure of the caller, in the call of it that was to panic.
XBomb == e.out.res.t = "bomb"
XBombOk(els, offered) ==
    /\ XBomb = ((e.bomb > 0 /\ els = e.bomb) \/ (e.fbomb > 0 /\ offered = e.fbomb))
    /\ e.bomb > 0 => els <= e.bomb
    /\ e.fbomb > 0 => offered <= e.fbomb

\* end: what the file allows; complete, begun: the observed callbacks are all / a first part.
XResult(end, complete, begun) ==
    LET ok == e.out.res.t = "ok" IN
    CASE XBomb -> end = "any" \/ begun
      [] end = "any" -> TRUE
      [] end = "err" \/ Flt = "yes" -> ~ok /\ begun
      [] end = "may" \/ Flt = "retry" -> IF ok THEN complete ELSE begun
      [] OTHER -> ok /\ complete

\* The error of an operation on the indexed reader; data: data blobs were read as well.
XErr(data) ==
    OnErr /\ e.out.res.t = "err" =>
        LET f == ix[e.h]
            w == FS!Walk(f, LZero)
            cs == FS!Culprits(f, LZero, w)
            mine == SelectSeq(cs, LAMBDA fr : fr.k # "frame" \/ (data /\ FS!IsData(f, fr)))
        IN IF Flt # "no" THEN ErrSound(e.out.res)
           ELSE IF w.end = "any" \/ (data /\ FS!SomeAny(f, w)) THEN ErrSound(e.out.res)
           ELSE IF w.end = "err" THEN ErrSound(e.out.res) /\ FrameErr(e.out.res, f, cs[Len(cs)])
           ELSE AnyErrIn(e.out.res, f, mine)

XCreate ==
    /\ Is("xcreate") /\ ~Panicked /\ e.h \in DOMAIN ix /\ MemOkFor(ix[e.h])
    /\ XResult(FS!IndexResult(FS!Walk(ix[e.h], LZero)), TRUE, TRUE) /\ XErr(FALSE)
    /\ XSame

XNodes ==
    /\ Is("xnodes") /\ ~Panicked /\ e.h \in DOMAIN ix /\ MemOkFor(ix[e.h])
    /\ XErr(TRUE)
    /\ LET r == FS!IndexedRead(ix[e.h], FS!Walk(ix[e.h], LZero))
           gs == FS!NodeGroups(r.blocks)
           m(partial) == MatchGroups(e.out.els, gs, e.full, partial)
       IN XResult(r.end, m(FALSE), m(TRUE))
    /\ XBombOk(Len(e.out.els), 0)
    /\ XSame

XWays ==
    /\ Is("xways") /\ ~Panicked /\ e.h \in DOMAIN ix /\ MemOkFor(ix[e.h])
    /\ XErr(TRUE)
    \* (The quantifiers make TLC evaluate each of these once.)
    /\ \A r \in {FS!IndexedRead(ix[e.h], FS!Walk(ix[e.h], LZero))} :
       \A ways \in {FS!AllWays(r.blocks)} :
       \A acc \in {FS!Accepted(ways, {e.acc[i] : i \in DOMAIN e.acc}, e.every)} :
       \A gs \in {[i \in DOMAIN acc |-> << <<acc[i]>> >>] \o FS!Deps(r.blocks, acc)} :
       \A ids \in {[i \in DOMAIN ways |-> ways[i].id]} :
       LET m(partial) == MatchGroups(e.out.els, gs, e.full, partial)
           offered == e.out.offered
       IN XResult(r.end, offered = ids /\ m(FALSE), IsPrefix(offered, ids) /\ m(TRUE))
    /\ XBombOk(Len(e.out.els), Len(e.out.offered))
    /\ XSame

----------------------------------------------------------------------------
(* Blocks.  An iterator is [m, what, g, k, i, c, open]: the list it walks and how many items it *)
(* has consumed; open: nothing is specified any more (past a tag that cannot be resolved).      *)

BSame == UNCHANGED <<rd, blk, ix, bind, kb, pf, pdone>>

ElemAt(m, g, k, i) == KindOf(Decoded[m].groups[g], k)[i]

IterOf(src, what) ==
    IF src \in DOMAIN blk
    THEN [m |-> blk[src], what |-> what, g |-> 0, k |-> "", i |-> 0, c |-> 0, open |-> FALSE]
    ELSE [itm[src] EXCEPT !.what = what]

MakeIter ==
    /\ Is("iter") /\ e.out.t = "ok" /\ e.src \in DOMAIN blk \cup DOMAIN itm
    /\ its' = Set(its, e.new, IterOf(e.src, e.what))
    /\ UNCHANGED <<itm, ord>> /\ BSame

ListLen(it) ==
    LET B == Decoded[it.m] IN
    CASE it.what = "groups" -> Len(B.groups)
      [] it.what = "elements" -> B.size
      [] it.what \in {"nodes", "dense", "ways", "rels"} -> Len(KindOf(B.groups[it.g], KindOfList(it.what)))
      [] OTHER -> LET x == ElemAt(it.m, it.g, it.k, it.i) IN
            CASE it.what = "tags" -> Len(x.tags)
              [] it.what = "raw" -> Len(x.raw)
              [] it.what = "refs" -> Len(x.refs)
              [] it.what = "locs" -> Len(x.locs)
              [] it.what = "mems" -> Len(x.mems)

\* The announced length has to be right.
Honest(it) ==
    LET B == Decoded[it.m] IN
    CASE it.what \in {"groups", "elements", "nodes", "ways", "rels", "refs"} -> TRUE
      [] it.what = "dense" -> B.groups[it.g].dok
      [] OTHER -> LET x == ElemAt(it.m, it.g, it.k, it.i) IN
            CASE it.what = "tags" -> x.tok
              [] it.what = "raw" -> x.rawok
              [] it.what = "locs" -> x.lok
              [] it.what = "mems" -> x.mok

\* Where item j of the list is: <<group, kind, index>>
Where(it, j) ==
    CASE it.what = "elements" -> ord[it.m][j]
      [] it.what = "groups" -> <<j, "", 0>>
      [] OTHER -> <<it.g, KindOfList(it.what), j>>

Pairwise(what) == what \in {"tags", "raw", "refs", "locs", "mems"}

MatchItem(o, it, j) ==
    IF Pairwise(it.what)
    THEN LET x == ElemAt(it.m, it.g, it.k, it.i) IN
         CASE it.what = "tags" -> o.k = "tag" /\ o.t = x.tags[j]
           [] it.what = "raw" -> o.k = "raw" /\ o.t = x.raw[j]
           [] it.what = "refs" -> o.k = "ref" /\ o.t = x.refs[j]
           [] it.what = "locs" -> o.k = "loc" /\ MatchPos(o.t, x.locs[j])
           [] it.what = "mems" -> o.k = "mem" /\ MatchMember(o.t, x.mems[j])
    ELSE LET w == Where(it, j) IN
         IF it.what = "groups" THEN o.k = "group"
         ELSE MatchEl(o, ElemAt(it.m, w[1], w[2], w[3]))

ItemRef(it, j) ==
    LET w == Where(it, j) IN
    [m |-> it.m, what |-> "", g |-> w[1], k |-> w[2], i |-> w[3], c |-> 0, open |-> FALSE]

Keep(it, j) ==
    IF e.keep = "" \/ Pairwise(it.what) THEN UNCHANGED itm ELSE itm' = Set(itm, e.keep, ItemRef(it, j))

\* Taking the item n places ahead.
Advance(n) ==
    /\ ~Panicked /\ e.out.t # "gone"
    /\ LET it == its[e.it]
           r == ItNth(ListLen(it), it.c, n)
           past == [it EXCEPT !.c = r.c, !.open = (it.what = "tags" /\ ~Honest(it))]
       IN IF it.open THEN UNCHANGED <<its, itm>>
          ELSE IF r.at # 0 THEN /\ e.out.t = "item" /\ MatchItem(e.out.v, it, r.at)
                                /\ its' = Set(its, e.it, [it EXCEPT !.c = r.c])
                                /\ Keep(it, r.at)
          ELSE e.out.t = "none" /\ its' = Set(its, e.it, past) /\ UNCHANGED itm
    /\ UNCHANGED ord /\ BSame

INext == Is("inext") /\ Advance(0)
INth == Is("inth") /\ Advance(e.n)

ISkip ==
    /\ Is("iskip") /\ ~Panicked /\ e.out.t # "gone"
    /\ LET it == its[e.it]
           r == ItSkip(ListLen(it), it.c, e.n)
       IN IF it.open \/ (e.n > r.n /\ it.what = "tags" /\ ~Honest(it))
          THEN its' = Set(its, e.it, [it EXCEPT !.open = TRUE])
          ELSE e.out.n = r.n /\ its' = Set(its, e.it, [it EXCEPT !.c = r.c])
    /\ UNCHANGED <<itm, ord>> /\ BSame

IClone ==
    /\ Is("iclone") /\ e.out.t = "ok" /\ e.it \in DOMAIN its
    /\ its' = Set(its, e.new, its[e.it])
    /\ UNCHANGED <<itm, ord>> /\ BSame

ILast ==
    /\ Is("ilast") /\ ~Panicked /\ e.out.t # "gone"
    /\ LET it == its[e.it]
           r == ItLast(ListLen(it), it.c)
       IN IF it.open THEN UNCHANGED itm
          ELSE IF r.at # 0 THEN e.out.t = "item" /\ MatchItem(e.out.v, it, r.at) /\ Keep(it, r.at)
          ELSE e.out.t = "none" /\ UNCHANGED itm
    /\ UNCHANGED <<its, ord>> /\ BSame

ICount ==
    /\ Is("icount") /\ ~Panicked /\ e.out.t # "gone"
    /\ LET it == its[e.it] IN ~it.open => e.out.n = ItCount(ListLen(it), it.c).n
    /\ UNCHANGED <<its, itm, ord>> /\ BSame

ILen ==
    /\ Is("ilen") /\ ~Panicked /\ e.out.t # "gone"
    /\ LET it == its[e.it]
           left == ItLen(ListLen(it), it.c).n
       IN IF it.what = "elements"
          THEN (\A g \in DOMAIN Decoded[it.m].groups : Decoded[it.m].groups[g].dok)
                 => e.out.h[1] <= left /\ (e.out.h[2] = -1 \/ e.out.h[2] >= left)
          ELSE Honest(it) => e.out.h = <<left, left>> /\ e.out.n = left
    /\ UNCHANGED <<its, itm, ord>> /\ BSame

\* The order in which the observed elements v run through the block.
OrderOf(v, m) ==
    LET sizes == Decoded[m].sizes
        zero == [k \in {"node", "dense", "way", "rel"} |-> 0]
        filled == SelectSeq([g \in DOMAIN sizes |-> g], LAMBDA g : sizes[g] > 0)     \* groups that are not empty
        step(a, x) ==
          LET new == a.left = 0
              j == IF new THEN a.j + 1 ELSE a.j
              n == (IF new THEN zero ELSE a.n) IN
          [j |-> j, left |-> (IF new THEN sizes[filled[j]] ELSE a.left) - 1,
           n |-> [n EXCEPT ![x.k] = @ + 1],
           out |-> Append(a.out, <<filled[j], x.k, n[x.k] + 1>>)]
    IN FoldLeft(step, [j |-> 0, left |-> 0, n |-> zero, out |-> <<>>], v).out

IRest ==
    /\ Is("irest") /\ ~Panicked /\ e.out.t # "gone"
    /\ LET it == its[e.it]
           len == ListLen(it)
           v == e.out.v
       IN IF it.open THEN UNCHANGED ord
          ELSE IF it.what = "elements" /\ it.c = 0 /\ it.m \notin DOMAIN ord
          THEN MatchBlock(v, it.m, TRUE) /\ ord' = Set(ord, it.m, OrderOf(v, it.m))
          ELSE /\ Len(v) = len - it.c
               /\ \A j \in DOMAIN v : MatchItem(v[j], it, it.c + j)
               /\ UNCHANGED ord
    /\ UNCHANGED <<its, itm>> /\ BSame

BForEach ==
    /\ Is("bforeach") /\ ~Panicked /\ e.out.t # "gone"
    /\ MatchBlock(e.out.v, blk[e.b], TRUE)
    /\ UNCHANGED <<its, itm, ord>> /\ BSame

StrTab ==
    /\ Is("strtab") /\ ~Panicked /\ e.out.t # "gone"
    /\ e.out.v = Decoded[blk[e.b]].st
    /\ UNCHANGED <<its, itm, ord>> /\ BSame

ElStrTab ==
    /\ Is("elstrtab") /\ ~Panicked /\ e.out.t # "gone"
    /\ e.out.v = Decoded[itm[e.src].m].st
    /\ UNCHANGED <<its, itm, ord>> /\ BSame

----------------------------------------------------------------------------
(* An operation on something that was never made (the opening failed, the item does not exist). *)

Gone ==
    /\ l <= Len(Lines) /\ l' = l + 1
    /\ e.out.t = "gone"
    /\ \/ e.op \in {"next", "hdr", "seek", "seekraw", "from", "clone"} /\ e.h \notin DOMAIN rd
       \/ e.op \in {"xcreate", "xnodes", "xways"} /\ e.h \notin DOMAIN ix
       \/ e.op \in {"inext", "inth", "ilast", "icount", "ilen", "iclone", "irest", "iskip"} /\ e.it \notin DOMAIN its
       \/ e.op = "iter" /\ e.src \notin DOMAIN blk \cup DOMAIN itm
       \/ e.op \in {"bforeach", "strtab"} /\ e.b \notin DOMAIN blk
       \/ e.op \in {"bdec", "bclone"} /\ e.b \notin DOMAIN kb
       \/ e.op = "bdecpar" /\ \E i \in DOMAIN e.bs : e.bs[i] \notin DOMAIN kb
       \/ e.op = "elstrtab" /\ e.src \notin DOMAIN itm
    /\ UNCHANGED <<rd, blk, its, itm, ord, ix, bind, kb, pf, pdone>>

----------------------------------------------------------------------------
(* Known deviation (see KNOWN_FINDINGS): the members of a relation cannot be walked if one of   *)
(* them has a type that is not 0, 1 or 2; the library panics instead.                           *)

KnownPanic ==
    /\ l <= Len(Lines) /\ l' = l + 1
    /\ \E i \in DOMAIN KnownList : KnownList[i] = "member-type"
    /\ Panicked /\ "kind" \notin DOMAIN e.out     \* a panic, not a hang or a crash
    /\ \/ e.op \in {"inext", "inth", "ilast", "icount", "irest", "iskip"}
          /\ LET it == its[e.it] IN
             \/ it.what = "mems" /\ ElemAt(it.m, it.g, it.k, it.i).wild
             \/ it.what \in {"rels", "elements"} /\ e.op # "icount" /\ e.op # "iskip" /\ Decoded[it.m].wild
       \/ e.op = "bforeach" /\ Decoded[blk[e.b]].wild
    /\ PrintT(<<"KNOWN-DEVIATION", l>>)
    /\ UNCHANGED <<rd, blk, its, itm, ord, ix, bind, kb, pf, pdone>>

----------------------------------------------------------------------------

TNext ==
    \/ Reset
    \/ Open \/ NextBlob \/ NextHdr \/ SeekTo \/ SeekRaw \/ FromOffset \/ Clone \/ Drop
    \/ BDec \/ BClone \/ BDecPar
    \/ ForEach
    \/ ParBegin \/ ParMap \/ ParIdent \/ ParReduce \/ ParEnd \/ ParList
    \/ XOpen \/ XCreate \/ XNodes \/ XWays
    \/ MakeIter \/ INext \/ INth \/ ISkip \/ IClone \/ ILast \/ ICount \/ ILen \/ IRest
    \/ BForEach \/ StrTab \/ ElStrTab
    \/ Gone \/ KnownPanic

Spec == Init /\ [][TNext]_vars

\* Every line was matched by a step: the longest behaviour has one state per line and the initial one.
Accepted == TLCGet("stats").diameter - 1 = Len(Lines)
\* Otherwise the number of lines that were matched.
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, "OF", Len(Lines)>>)
Post == Report /\ Accepted
=============================================================================
