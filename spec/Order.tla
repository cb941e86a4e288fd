------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* Orders of the packet nodes of one level.                                *)
(*                                                                         *)
(* The frequency order is defined physically: a tone of frequency a/D      *)
(* (in units of the Nyquist frequency) passes the low pass if a < D/2 and  *)
(* has the frequency 2a/D after decimation; otherwise it passes the high   *)
(* pass and is mirrored to (2D - 2a)/D.                                    *)
(***************************************************************************)
EXTENDS Calls

RECURSIVE TonePath(_, _, _)
TonePath(a, D, J) ==
  IF J = 0 THEN <<>>
  ELSE IF 2 * a < D THEN <<"a">> \o TonePath(2 * a, D, J - 1)
  ELSE <<"d">> \o TonePath(2 * D - 2 * a, D, J - 1)

\* path whose band is the i-th (0-based) of the 2^J bands of level J
BandPath(i, J) == TonePath(2 * i + 1, Pow2(J + 1), J)
FreqOrder1(J) == [i \in 1..Pow2(J) |-> BandPath(i - 1, J)]

\* h is high pass along the first axis only, v along the second axis only
Letter2(x, y) == CASE x = "a" /\ y = "a" -> "a" [] x = "d" /\ y = "a" -> "h"
                   [] x = "a" /\ y = "d" -> "v" [] OTHER -> "d"
Path2(p, q) == [k \in 1..Len(p) |-> Letter2(p[k], q[k])]
FreqOrder2(J) ==
  LET o == TLCEval(FreqOrder1(J))
  IN [i \in 1..Pow2(J) |-> [j \in 1..Pow2(J) |-> Path2(o[i], o[j])]]

\* natural order: the i-th word over the letters, counted in base Len(abc)
RECURSIVE Word(_, _, _)
Word(i, abc, J) ==
  IF J = 0 THEN <<>>
  ELSE Append(Word(i \div Len(abc), abc, J - 1), abc[(i % Len(abc)) + 1])
RECURSIVE PowI(_, _)
PowI(b, e) == IF e = 0 THEN 1 ELSE b * PowI(b, e - 1)
NaturalOrder(abc, J) == [i \in 1..PowI(Len(abc), J) |-> Word(i - 1, abc, J)]

OrderVerdict(e) ==
  IF e.order \notin {"freq", "natural"}
  THEN IF e.out.st = "ok" THEN "unknown order accepted"
       ELSE IF e.out.exc # "ValueError" THEN "raised " \o e.out.exc ELSE ""
  ELSE IF e.out.st # "ok" THEN "refused: " \o e.out.exc
  ELSE IF e.order = "natural"
       THEN IF e.out.ps # NaturalOrder(IF e.nd = 1 THEN <<"a", "d">> ELSE <<"a", "h", "v", "d">>, e.level)
            THEN "natural order" ELSE ""
  ELSE IF e.out.ps # (IF e.nd = 1 THEN FreqOrder1(e.level) ELSE FreqOrder2(e.level))
       THEN "frequency order" ELSE ""

=============================================================================
