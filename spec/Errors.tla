-------------------------------- MODULE Errors ------------------------------
(***************************************************************************)
(* What an error says.  An observed error is                               *)
(*   k     its kind: "io", "proto", "utf8", "oob", "hsize", "hbig", "mbig",*)
(*         "empty" or "other"                                              *)
(*   d     the kind of an I/O error, the place of a protobuf error         *)
(*   sz    <<number>>: the size of what is too big, the index of a string  *)
(*   cause whether it names an underlying error, os: the number of that    *)
(*         error in the operating system or 0, right: the cause is the one   *)
(*         in its kind, and the text of the cause is part of its text        *)
(*   nums  the numbers in its text, text: it has a text, desc: and a short *)
(*         description                                                       *)
(*   back  its k, d and sz after conversion to an io::Error and back, kept:*)
(*         the conversion left the text alone                              *)
(* Situations (why) are named by the operators below.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

ErrKinds == {"io", "proto", "utf8", "oob", "hsize", "hbig", "mbig", "empty"}

\* An error is complete in itself.
ErrSound(o) ==
    /\ o.k \in ErrKinds
    /\ o.sz # <<>> <=> o.k \in {"utf8", "oob", "hbig", "mbig"}
    /\ Len(o.sz) = 1 => \E i \in DOMAIN o.nums : o.nums[i] = o.sz[1]
    /\ o.cause <=> o.k \in {"io", "proto", "utf8"}
    /\ o.text /\ o.desc /\ o.right /\ o.kept
    /\ o.back = [k |-> o.k, d |-> o.d, sz |-> o.sz]

\* The bytes do not form what is expected here.
ErrFormat(o) == o.k = "proto" \/ (o.k = "io" /\ o.d \in {"UnexpectedEof", "InvalidData", "Other"})
\* The stream ends within the four bytes of the header size.
ErrPrefix(o) == o.k = "hsize"
ErrHeaderBig(o, n) == o.k = "hbig" /\ o.sz = <<n>>
\* A content of n bytes, or at least n bytes if only a part was looked at.
ErrContentBig(o, n, exact) == o.k = "mbig" /\ (IF exact THEN o.sz = <<n>> ELSE LLe(n, o.sz[1]))
ErrEmpty(o) == o.k = "empty"
\* There is no blob at the position.
ErrNoBlob(o) == o.k = "io" /\ o.d = "UnexpectedEof"
\* The stream, or the system, does not position.
ErrSeek(o) == o.k = "io"
\* The stream failed while it was positioned or read.
ErrFault(o, on, kind, os) ==
    IF on = "seek" THEN o.k = "io" /\ o.d = kind /\ o.os = os ELSE o.k \in {"io", "proto", "hsize"}
ErrNoFile(o) == o.k = "io" /\ o.d = "NotFound"
=============================================================================
