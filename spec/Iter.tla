-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* An iterator over a list of len items: c items are consumed.  Every      *)
(* operation gives [at: number of the item it yields, 0 for none; c: items *)
(* consumed afterwards; n: the number it reports].                         *)
(***************************************************************************)
EXTENDS Integers

LOCAL Lesser(a, b) == IF a < b THEN a ELSE b
LOCAL Res(at, c, n) == [at |-> at, c |-> c, n |-> n]

\* the item n places ahead
ItNth(len, c, n) == IF c + n + 1 <= len THEN Res(c + n + 1, c + n + 1, 0) ELSE Res(0, len, 0)
ItNext(len, c) == ItNth(len, c, 0)
\* dropping up to n items; reports how many there were
ItSkip(len, c, n) == LET k == Lesser(n, len - c) IN Res(0, c + k, k)
\* these use up a copy
ItCount(len, c) == Res(0, c, len - c)
ItLast(len, c) == Res(IF c < len THEN len ELSE 0, c, 0)
\* the announced length
ItLen(len, c) == Res(0, c, len - c)
=============================================================================
