------------------------------ MODULE MC_Stream -----------------------------
(***************************************************************************)
(* Exhaustive check of the reader state machine (Stream) on all small      *)
(* abstract files, and generation of one test per transition of it.        *)
(*                                                                         *)
(* A file is [cells, tail]: frames of length 1 whose content is good or    *)
(* damaged, and what follows the last frame.  Histories of operations are  *)
(* unbounded: the state of a reader is finite.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFrames, Faults, Emit, Stops

VARIABLES f, s, twin, hist, last, delivered, dirty, items

vars == <<f, s, twin, hist, last, delivered, dirty, items>>

Cells == UNION {[1..n -> {"good", "bad"}] : n \in 0..MaxFrames}
Tails == {"none", "cut", "err", "hbig"}
FilesHere == [cells : Cells, tail : Tails]

End(x) == Len(x.cells) + (IF x.tail = "none" THEN 0 ELSE 1)

Cell(x, p) ==
    LET fr(k, nx, c) == [k |-> k, ty |-> <<p>>, size |-> 1, nx |-> nx, c |-> [k |-> c]] IN
    IF p < 0 \/ p >= End(x) THEN fr("end", p, "none")
    ELSE IF p < Len(x.cells) THEN fr("frame", p + 1, IF x.cells[p + 1] = "good" THEN "raw" ELSE "bad")
    ELSE IF x.tail = "cut" THEN fr("cut", p + 5, "none")
    ELSE fr(x.tail, p, "none")

ZeroHere == 0
PlusHere(a, b) == a + b
LeHere(a, b) == a <= b
NegHere(p) == p < 0
FarHere(p) == FALSE

S == INSTANCE Stream WITH FrameAt <- Cell, EndOf <- End, Plus <- PlusHere, Le <- LeHere,
                          IsNeg <- NegHere, IsFar <- FarHere, Zero <- ZeroHere

Positions == -1..(MaxFrames + 2)

\* Operations: the name, the argument, and whether the stream fails during it.
Ops ==
    [op : {"next", "hdr"}, a : {0}, flt : {"no", "yes"} \cup Stops]
    \cup [op : {"seek"}, a : Positions, flt : {"no", "yes"}]
    \cup [op : {"from"}, a : Positions, flt : {"no", "yes"} \cup Stops]
    \cup [op : {"start"}, a : Positions, flt : {"no"}]
    \cup [op : {"end", "cur"}, a : -2..1, flt : {"no", "yes"}]

Mmap(o) == o.op \in {"next", "seek"} /\ o.flt = "no" /\ o.a >= 0

Results(x, o) ==
    CASE o.op = "next" -> S!Next(x, o.flt)
      [] o.op = "hdr" -> S!Hdr(x, o.flt)
      [] o.op = "seek" -> S!Seek(x, o.a, o.flt)
      [] o.op = "from" -> S!From(x, o.a, o.flt)
      [] OTHER -> S!SeekRaw(x, o.op, o.a, x.pos, o.flt)

FaultsIn(h) == Cardinality({i \in DOMAIN h : h[i].flt # "no"})

Init ==
    /\ f \in FilesHere
    /\ \E known, mm \in BOOLEAN : s = S!Reader(f, 0, known \/ mm, mm)
    /\ twin = s
    /\ hist = <<>> /\ last = [op |-> "", o |-> S!ONone, before |-> s]
    /\ delivered = <<>> /\ dirty = FALSE /\ items = 0

Do(o) ==
    /\ s.mm => Mmap(o)
    /\ o.flt # "no" => FaultsIn(hist) < Faults
    /\ o.op = "cur" => s.pos <= MaxFrames + 1
    /\ \E r \in Results(s, o) :
        /\ s' = r.s
        /\ hist' = Append(hist, o)
        /\ last' = [op |-> o.op, o |-> r.o, before |-> s]
        \* what a plain iteration from the start has delivered; dirty: something else was done
        /\ delivered' = IF ~dirty /\ o.op = "next" /\ r.o.t = "blob" THEN Append(delivered, r.o.fr.ty[1]) ELSE delivered
        /\ dirty' = (dirty \/ o.op # "next" \/ o.flt # "no")
        /\ items' = IF o.op \notin {"next", "hdr"} THEN 0 ELSE IF r.o.t \in {"none"} THEN items ELSE IF items > 8 THEN items ELSE items + 1
    /\ UNCHANGED <<f, twin>>

Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

\* The history is only there to be emitted; the number of faults matters for what is enabled.
View == <<f, s, FaultsIn(hist), delivered, dirty, items>>
EmitView == <<f, s, FaultsIn(hist)>>

----------------------------------------------------------------------------
(* Properties *)

Step(o) == last'.op = o

\* C06: nothing after an error until repositioned
Fused == [][Step("next") \/ Step("hdr") => S!FusedOk(s, [o |-> last'.o, s |-> s'])]_vars
\* C03/C04/C07: an offset is where the frame was read from
Offsets == [][Step("next") \/ Step("hdr") => S!OffsetOk(s, [o |-> last'.o, s |-> s'])]_vars
Forward == [][Step("next") \/ Step("hdr") => S!ForwardOk(s, [o |-> last'.o, s |-> s'])]_vars
\* C23: when the stream fails the operation fails
FaultsShow == [][(hist'[Len(hist')].flt = "yes" /\ (Step("seek") \/ Step("from") \/ s.ok)) => last'.o.t = "err"]_vars
\* C05, C06: a stream that stops within a frame gives an error, and nothing more although it goes on
StopsShow == [][(hist'[Len(hist')].flt = "short" /\ (Step("next") \/ Step("hdr")) /\ s.ok /\ ~s.lost /\ Cell(f, s.pos).k # "end") =>
                last'.o.t = "err" /\ ~s'.ok]_vars
\* C03/C05: plain iteration delivers all frames in order and ends normally only at the true end
Complete == ~dirty => /\ delivered = [i \in 1..Len(delivered) |-> i - 1]
                      /\ Len(delivered) <= Len(f.cells)
                      /\ last.op = "next" /\ last.o.t = "none" /\ s.ok =>
                            Len(delivered) = Len(f.cells) /\ f.tail = "none"
\* C06: iteration ends: at most one item per frame and one error, plus one read of the frame
\* at which a positioned read or seek left the reader
Bounded == ~s.lost => items <= Len(f.cells) + 2
\* C07: after a successful positioning nothing of the history is left
Forgets == \A p \in 0..(MaxFrames + 2) : \A r \in S!Seek(s, p, "no") :
              S!Next(r.s, "no") = S!Next(S!Reader(f, p, TRUE, s.mm), "no")
FromForgets == ~s.mm => \A p \in 0..(MaxFrames + 2) :
              S!From(s, p, "no") = S!From(S!Reader(f, 0, TRUE, s.mm), p, "no")
\* C08: the mapped reader is the buffered one
Same(x, y) == [x EXCEPT !.mm = FALSE] = [y EXCEPT !.mm = FALSE]
Outcomes(R) == {<<r.o, [r.s EXCEPT !.mm = FALSE]>> : r \in R}
MmapLike == s.mm => \A o \in {x \in Ops : Mmap(x)} :
              Outcomes(Results(s, o)) = Outcomes(Results([s EXCEPT !.mm = FALSE], o))
\* C04: skipping and reading go to the same next frame
SkipLikeRead == s.ok /\ ~s.lost /\ Cell(s.f, s.pos).k = "frame" =>
              \A a \in S!Hdr(s, "no"), b \in S!Next(s, "no") :
                 b.o.t = "blob" => a.o.t = "hdr" /\ a.s.pos = b.s.pos /\ a.o.off = b.o.off

\* One test per transition: the path to the state (found by the search) and the operation.
EmitTests == Emit => PrintT(<<"PLAN", ToJson([cells |-> f.cells, tail |-> f.tail, known |-> twin.known,
                                              mm |-> twin.mm, ops |-> hist'])>>)
=============================================================================
