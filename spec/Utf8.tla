-------------------------------- MODULE Utf8 --------------------------------
(* Well-formed UTF-8 (Unicode standard, table 3-7) as an automaton over bytes. *)
EXTENDS Naturals, Sequences, SequencesExt

LOCAL In(b, lo, hi) == b >= lo /\ b <= hi

\* States: 0 start, 1..3 that many arbitrary continuation bytes to go,
\* 4: after E0, 5: after ED, 6: after F0, 7: after F4, 9: ill-formed.
LOCAL Step(s, b) ==
    CASE s = 9 -> 9
      [] s = 0 -> CASE b < 128 -> 0
                    [] In(b, 194, 223) -> 1
                    [] b = 224 -> 4
                    [] In(b, 225, 236) \/ In(b, 238, 239) -> 2
                    [] b = 237 -> 5
                    [] b = 240 -> 6
                    [] In(b, 241, 243) -> 3
                    [] b = 244 -> 7
                    [] OTHER -> 9
      [] s = 4 -> IF In(b, 160, 191) THEN 1 ELSE 9
      [] s = 5 -> IF In(b, 128, 159) THEN 1 ELSE 9
      [] s = 6 -> IF In(b, 144, 191) THEN 2 ELSE 9
      [] s = 7 -> IF In(b, 128, 143) THEN 2 ELSE 9
      [] OTHER -> IF In(b, 128, 191) THEN s - 1 ELSE 9

IsUtf8(bytes) == FoldLeft(Step, 0, bytes) = 0
=============================================================================
