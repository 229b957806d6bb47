-------------------------------- MODULE Stream ------------------------------
(***************************************************************************)
(* The blob readers as a state machine.                                    *)
(*                                                                         *)
(* A reader is [f, pos, known, ok, lost, mm]:                              *)
(*   f      the file                                                       *)
(*   pos    where the next frame is read                                   *)
(*   known  the reader knows pos, so blobs carry an offset                 *)
(*   ok     no error since the reader was opened or positioned             *)
(*   lost   pos is not specified (after a failed seek, or after a frame    *)
(*          about which nothing is specified)                              *)
(*   mm     it is a memory mapped reader                                   *)
(*                                                                         *)
(* Every operation is an operator that gives the set of its allowed        *)
(* results [o: outcome, s: reader afterwards].  The parameter flt tells    *)
(* whether the underlying stream failed during the operation: "no", "yes", *)
(* "retry" (it failed in a way that may be retried), or whether it once    *)
(* said that it ends and then went on, like a file that is still written:  *)
(* "ended" where the frame starts, "short" inside of it.                   *)
(*                                                                         *)
(* The constant operators tell what the bytes are: FrameAt gives the frame *)
(* at a position (see Wire), Plus/Minus/Le the arithmetic of positions.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS FrameAt(_, _), EndOf(_), Plus(_, _), Le(_, _), IsNeg(_), IsFar(_), Zero

Reader(f, pos, known, mm) ==
    [f |-> f, pos |-> pos, known |-> known, ok |-> TRUE, lost |-> FALSE, mm |-> mm]

\* After an error: nothing until repositioned.
Broken(s) == [s EXCEPT !.ok = FALSE, !.lost = TRUE, !.known = FALSE]
\* Position not specified, iteration goes on.
Wild(s) == [s EXCEPT !.lost = TRUE, !.known = FALSE]

ONone == [t |-> "none"]
\* why: "frame" (fr is not one, or it is cut), "format" (bad content), "seek", "fault", "none" (nothing is there), "" (anything)
OErr(why) == [t |-> "err", k |-> why, sz |-> Zero]
ONoFrame(fr) == [t |-> "err", k |-> "frame", sz |-> Zero, fr |-> fr]
OBig(sz) == [t |-> "err", k |-> "hbig", sz |-> sz]
\* off: <<>> or <<pos>>; fr: the frame
OBlob(fr, off) == [t |-> "blob", fr |-> fr, off |-> off]
OHdr(fr, off) == [t |-> "hdr", fr |-> fr, off |-> off]
\* some blob or header about which nothing is specified
OAny == [t |-> "any"]
OOk == [t |-> "ok"]
OPos(p) == [t |-> "pos", pos |-> p]

R(o, s) == [o |-> o, s |-> s]

Offset(s) == IF s.known THEN <<s.pos>> ELSE <<>>

Unspecified(s) == {R(OAny, Wild(s)), R(OErr(""), Broken(s)), R(ONone, Wild(s))}

Failed(s) == {R(OErr("fault"), Broken(s))}

\* The stream stopped for once.  Where a frame starts this is the end for now; within a frame it is
\* an error like any other, also if the stream goes on afterwards.
Stopped(s, flt) ==
    IF s.lost \/ FrameAt(s.f, s.pos).k = "any" THEN Unspecified(s)
    \* whether it still knows the position, should it go on, is left open
    ELSE IF flt = "ended" \/ FrameAt(s.f, s.pos).k = "end" THEN {R(ONone, s), R(ONone, [s EXCEPT !.known = FALSE])}
    ELSE {R(OErr(""), Broken(s))}

----------------------------------------------------------------------------
(* Reading the next blob *)

NextHere(s) ==
    LET fr == FrameAt(s.f, s.pos) IN
    CASE fr.k = "end" -> {R(ONone, s)}
      [] fr.k = "hbig" -> {R(OBig(fr.size), Broken(s))}
      [] fr.k \in {"err", "cut"} -> {R(ONoFrame(fr), Broken(s))}
      [] fr.k = "frame" ->
            {R(OBlob(fr, Offset(s)), [s EXCEPT !.pos = fr.nx])}
            \* damage inside the content may already show here
            \cup (IF fr.c.k \in {"bad", "odd"} THEN {R(OErr("format"), Broken(s))} ELSE {})
      [] fr.k = "any" -> Unspecified(s)

Next(s, flt) ==
    IF ~s.ok THEN {R(ONone, s)}
    ELSE IF flt = "yes" THEN Failed(s)
    ELSE IF flt \in {"ended", "short"} THEN Stopped(s, flt)
    ELSE (IF flt = "retry" THEN Failed(s) ELSE {})
         \cup (IF s.lost THEN Unspecified(s) ELSE NextHere(s))

(* Reading the next header, skipping the content *)

HdrHere(s) ==
    LET fr == FrameAt(s.f, s.pos)
        \* skipping tells the reader where it is
        skipped == [s EXCEPT !.pos = fr.nx, !.known = TRUE]
    IN
    CASE fr.k = "end" -> {R(ONone, s)}
      [] fr.k = "hbig" -> {R(OBig(fr.size), Broken(s))}
      [] fr.k = "err" -> {R(ONoFrame(fr), Broken(s))}
      [] fr.k = "frame" -> {R(OHdr(fr, Offset(s)), skipped)}
      \* the walk does not look at contents, so it may or may not see that one is cut
      [] fr.k = "cut" -> {R(OHdr(fr, Offset(s)), skipped), R(ONoFrame(fr), Broken(s))}
      [] fr.k = "any" -> Unspecified(s)

Hdr(s, flt) ==
    IF ~s.ok THEN {R(ONone, s)}
    ELSE IF flt = "yes" THEN Failed(s)
    ELSE IF flt \in {"ended", "short"} THEN Stopped(s, flt)
    ELSE (IF flt = "retry" THEN Failed(s) ELSE {})
         \cup (IF s.lost THEN Unspecified(s) ELSE HdrHere(s))

(* Positioning *)

At(s, p) == [s EXCEPT !.pos = p, !.known = TRUE, !.ok = TRUE, !.lost = FALSE]

\* The stream refused to seek: the reader may stay where it was, the caller cannot know.
SeekFailed(s) == {R(OErr("seek"), Wild(s))}
SeekFault(s) == {R(OErr("fault"), Wild(s))}

\* The operating system does not let a file be positioned arbitrarily far behind its end.
TooFar(s, p) == IF IsFar(p) /\ ~s.mm THEN SeekFailed(s) ELSE {}

Seek(s, p, flt) ==
    IF flt = "yes" THEN SeekFault(s)
    ELSE (IF flt = "retry" THEN SeekFault(s) ELSE {})
         \cup (IF IsNeg(p) /\ ~s.mm THEN SeekFailed(s) ELSE {R(OOk, At(s, p))} \cup TooFar(s, p))

\* from "start", "end" or "cur"; got: the position the call returned, used only if it cannot be
\* told where the stream was.
SeekRaw(s, from, d, got, flt) ==
    LET there(p) == IF IsNeg(p) THEN SeekFailed(s) ELSE {R(OPos(p), At(s, p))} \cup TooFar(s, p) IN
    IF flt = "yes" THEN SeekFault(s)
    ELSE (IF flt = "retry" THEN SeekFault(s) ELSE {})
         \cup (CASE from = "start" -> there(d)
                 [] from = "end" -> there(Plus(EndOf(s.f), d))
                 [] from = "cur" -> IF s.lost THEN SeekFailed(s) \cup there(got) ELSE there(Plus(s.pos, d)))

\* A positioned read: seek, then read; no blob there is an error.
From(s, p, flt) ==
    LET endless(r) == IF r.o.t = "none" THEN R(OErr("none"), r.s) ELSE r IN
    IF flt = "yes" THEN {R(OErr("fault"), Wild(s)), R(OErr("fault"), Broken(s))}
    ELSE (IF flt = "retry" THEN {R(OErr("fault"), Wild(s)), R(OErr("fault"), Broken(s))} ELSE {})
         \cup (IF IsNeg(p) THEN SeekFailed(s)
               ELSE TooFar(s, p) \cup {endless(r) : r \in IF flt \in {"ended", "short"} THEN Stopped(At(s, p), flt)
                                                         ELSE NextHere(At(s, p))})

----------------------------------------------------------------------------
(* Properties of a reader that follow from any operation on it; s before, r after. *)

\* C06: nothing after an error
FusedOk(s, r) == ~s.ok => r.o.t = "none" /\ ~r.s.ok
\* C03, C04: an offset is the position the frame was read from
OffsetOk(s, r) == r.o.t \in {"blob", "hdr"} => r.o.off \in {<<>>, <<s.pos>>} /\ (s.known => r.o.off = <<s.pos>>)
\* C06: a reader that moves on moves forward
ForwardOk(s, r) == r.o.t \in {"blob", "hdr"} /\ ~r.s.lost => Le(s.pos, r.s.pos) /\ s.pos # r.s.pos
=============================================================================
