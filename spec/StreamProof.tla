----------------------------- MODULE StreamProof ----------------------------
(***************************************************************************)
(* The properties of the reader state machine for every file and every     *)
(* history: what MC_Stream checks on all small files follows from the      *)
(* operators of Stream for any frames.  Proved with TLAPS.                 *)
(***************************************************************************)
EXTENDS Stream, TLAPS

CONSTANTS Files, Pos

Readers == [f : Files, pos : Pos, known : BOOLEAN, ok : BOOLEAN, lost : BOOLEAN, mm : BOOLEAN]
Kinds == {"end", "hbig", "err", "cut", "frame", "any"}
Flts == {"no", "yes", "retry", "ended", "short"}
Types == {"none", "err", "blob", "hdr", "any"}

ASSUME KindOf == \A f \in Files, p \in Pos : FrameAt(f, p).k \in Kinds
ASSUME NextPos == \A f \in Files, p \in Pos : FrameAt(f, p).nx \in Pos
ASSUME Grows == \A f \in Files, p \in Pos :
    FrameAt(f, p).k \in {"frame", "cut"} => Le(p, FrameAt(f, p).nx) /\ p # FrameAt(f, p).nx

LEMMA Broken1 == ASSUME NEW s \in Readers
                 PROVE Broken(s) \in Readers /\ ~Broken(s).ok /\ Broken(s).lost /\ ~Broken(s).known
                       /\ Wild(s) \in Readers /\ Wild(s).lost /\ Wild(s).ok = s.ok
  BY DEF Broken, Wild, Readers

LEMMA Outcomes1 == \A fr, off, sz, why :
    /\ ONone.t = "none" /\ OErr(why).t = "err" /\ ONoFrame(fr).t = "err" /\ OBig(sz).t = "err"
    /\ OBlob(fr, off).t = "blob" /\ OHdr(fr, off).t = "hdr" /\ OAny.t = "any"
    /\ OBlob(fr, off).off = off /\ OHdr(fr, off).off = off
    /\ OBlob(fr, off).fr = fr /\ OHdr(fr, off).fr = fr
  BY DEF ONone, OErr, ONoFrame, OBig, OBlob, OHdr, OAny

LEMMA R1 == \A o, s : R(o, s).o = o /\ R(o, s).s = s
  BY DEF R

(* C06: nothing after an error, until the reader is positioned; an error leaves it in that state. *)
THEOREM Fused ==
    ASSUME NEW s \in Readers, NEW flt \in Flts, NEW r \in Next(s, flt) \cup Hdr(s, flt)
    PROVE FusedOk(s, r)
  BY R1, Outcomes1 DEF Next, Hdr, FusedOk

THEOREM ErrorStops ==
    ASSUME NEW s \in Readers, NEW flt \in Flts, NEW r \in Next(s, flt) \cup Hdr(s, flt), r.o.t = "err"
    PROVE ~r.s.ok
<1> USE R1, Outcomes1, Broken1
<1>1. r \in Failed(s) => ~r.s.ok
  BY DEF Failed
<1>2. r \in Unspecified(s) => ~r.s.ok
  BY DEF Unspecified
<1>3. r \in Stopped(s, flt) => ~r.s.ok
  BY <1>2 DEF Stopped
<1>4. r \in NextHere(s) => ~r.s.ok
  BY <1>2, KindOf DEF NextHere, Kinds, Readers
<1>5. r \in HdrHere(s) => ~r.s.ok
  BY <1>2, KindOf DEF HdrHere, Kinds, Readers
<1>6. CASE r \in Next(s, flt)
  BY <1>1, <1>2, <1>3, <1>4, <1>6 DEF Next
<1>7. CASE r \in Hdr(s, flt)
  BY <1>1, <1>2, <1>3, <1>5, <1>7 DEF Hdr
<1> QED BY <1>6, <1>7

(* C03, C04, C06: offsets are positions, readers move forward. *)
LEMMA NextHereBlob ==
    ASSUME NEW s \in Readers, NEW r \in NextHere(s), r.o.t \in {"blob", "hdr"}
    PROVE /\ FrameAt(s.f, s.pos).k = "frame" /\ r.o.off = Offset(s) /\ r.o.fr = FrameAt(s.f, s.pos)
          /\ r.o.t = "blob" /\ r.s = [s EXCEPT !.pos = FrameAt(s.f, s.pos).nx]
<1> USE R1, Outcomes1
<1>1. FrameAt(s.f, s.pos).k \in Kinds
  BY KindOf DEF Readers
<1>2. FrameAt(s.f, s.pos).k = "frame"
  BY <1>1 DEF NextHere, Unspecified, Kinds
<1> QED BY <1>2 DEF NextHere

LEMMA HdrHereHdr ==
    ASSUME NEW s \in Readers, NEW r \in HdrHere(s), r.o.t \in {"blob", "hdr"}
    PROVE /\ FrameAt(s.f, s.pos).k \in {"frame", "cut"} /\ r.o.off = Offset(s) /\ r.o.fr = FrameAt(s.f, s.pos)
          /\ r.o.t = "hdr" /\ r.s = [s EXCEPT !.pos = FrameAt(s.f, s.pos).nx, !.known = TRUE]
<1> USE R1, Outcomes1
<1>1. FrameAt(s.f, s.pos).k \in Kinds
  BY KindOf DEF Readers
<1>2. FrameAt(s.f, s.pos).k \in {"frame", "cut"}
  BY <1>1 DEF HdrHere, Unspecified, Kinds
<1> QED BY <1>2 DEF HdrHere

LEMMA ItemsHere ==
    ASSUME NEW s \in Readers, NEW flt \in Flts, NEW r \in Next(s, flt) \cup Hdr(s, flt), r.o.t \in {"blob", "hdr"}
    PROVE s.ok /\ ~s.lost /\ (r \in NextHere(s) \/ r \in HdrHere(s))
<1> USE R1, Outcomes1
<1>1. r \notin Unspecified(s) /\ r \notin Failed(s) /\ r \notin Stopped(s, flt) /\ r # R(ONone, s)
  BY DEF Unspecified, Failed, Stopped
<1> QED BY <1>1 DEF Next, Hdr

THEOREM Offsets ==
    ASSUME NEW s \in Readers, NEW flt \in Flts, NEW r \in Next(s, flt) \cup Hdr(s, flt)
    PROVE OffsetOk(s, r)
  BY ItemsHere, NextHereBlob, HdrHereHdr DEF OffsetOk, Offset

THEOREM Forward ==
    ASSUME NEW s \in Readers, NEW flt \in Flts, NEW r \in Next(s, flt) \cup Hdr(s, flt)
    PROVE ForwardOk(s, r)
<1> SUFFICES ASSUME r.o.t \in {"blob", "hdr"} PROVE Le(s.pos, r.s.pos) /\ s.pos # r.s.pos
  BY DEF ForwardOk
<1>1. FrameAt(s.f, s.pos).k \in {"frame", "cut"} /\ r.s.pos = FrameAt(s.f, s.pos).nx
  BY ItemsHere, NextHereBlob, HdrHereHdr DEF Readers
<1> QED BY <1>1, Grows DEF Readers

(* C04: skipping and reading lead to the same next frame. *)
THEOREM SkipLikeRead ==
    ASSUME NEW s \in Readers, s.ok, ~s.lost, FrameAt(s.f, s.pos).k = "frame",
           NEW a \in Hdr(s, "no"), NEW b \in Next(s, "no"), b.o.t = "blob"
    PROVE a.o.t = "hdr" /\ a.s.pos = b.s.pos /\ a.o.off = b.o.off /\ a.o.fr = b.o.fr
<1> USE R1, Outcomes1
<1>1. a = R(OHdr(FrameAt(s.f, s.pos), Offset(s)), [s EXCEPT !.pos = FrameAt(s.f, s.pos).nx, !.known = TRUE])
  BY DEF Hdr, HdrHere
<1>2. b \in NextHere(s)
  BY DEF Next
<1> QED BY <1>1, <1>2, NextHereBlob DEF Readers

(* C07: after a successful positioning nothing of the history is left. *)
THEOREM Forgets ==
    ASSUME NEW s \in Readers, NEW p \in Pos, NEW flt \in Flts, NEW r \in Seek(s, p, flt), r.o.t = "ok"
    PROVE r.s = Reader(s.f, p, TRUE, s.mm)
  BY R1, Outcomes1 DEF Seek, SeekFault, SeekFailed, TooFar, At, Reader, Readers, OOk

THEOREM FromForgets ==
    ASSUME NEW s \in Readers, NEW p \in Pos, ~IsNeg(p), ~IsFar(p)
    PROVE From(s, p, "no") = From(Reader(s.f, p, TRUE, s.mm), p, "no")
<1>1. At(s, p) = At(Reader(s.f, p, TRUE, s.mm), p)
  BY DEF At, Reader, Readers
<1>2. TooFar(s, p) = TooFar(Reader(s.f, p, TRUE, s.mm), p)
  BY DEF TooFar
<1> QED BY <1>1, <1>2 DEF From

(* C23: a failure of the stream is reported. *)
THEOREM FaultsShow ==
    ASSUME NEW s \in Readers, NEW p \in Pos, s.ok,
           NEW r \in Next(s, "yes") \cup Hdr(s, "yes") \cup Seek(s, p, "yes") \cup From(s, p, "yes")
    PROVE r.o.t = "err"
  BY R1, Outcomes1 DEF Next, Hdr, Seek, From, Failed, SeekFault

(* C08: the mapped reader does what the buffered one does. *)
Unmapped(x) == [x EXCEPT !.mm = FALSE]
THEOREM MmapLike ==
    ASSUME NEW s \in Readers, NEW r \in NextHere(s)
    PROVE \E q \in NextHere(Unmapped(s)) : q.o = r.o /\ q.s = Unmapped(r.s)
<1> USE R1
<1>1. Unmapped(s) \in Readers /\ Unmapped(s).f = s.f /\ Unmapped(s).pos = s.pos /\ Unmapped(s).known = s.known
  BY DEF Unmapped, Readers
<1>2. FrameAt(s.f, s.pos).k \in Kinds
  BY KindOf DEF Readers
<1>3. /\ Unmapped(Broken(s)) = Broken(Unmapped(s)) /\ Unmapped(Wild(s)) = Wild(Unmapped(s))
      /\ \A q : Unmapped([s EXCEPT !.pos = q]) = [Unmapped(s) EXCEPT !.pos = q]
      /\ Offset(Unmapped(s)) = Offset(s)
  BY <1>1 DEF Unmapped, Readers, Broken, Wild, Offset
<1> QED BY <1>1, <1>2, <1>3 DEF NextHere, Unspecified, Kinds
=============================================================================
