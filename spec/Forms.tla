-------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* The wavelet argument: forms of the same taps are interchangeable, and   *)
(* the taps are used in full precision of the data type.                   *)
(***************************************************************************)
EXTENDS Calls

\* e.alts: one result per form; err is the largest deviation from the first form in
\* units of the last accepted bit relative to the largest coefficient (-1: another
\* structure, shape or dtype).
FormsVerdict(e) ==
  LET A == e.alts
      bad == {i \in 1..Len(A) : A[i].st # "ok"}
      dif == {i \in 1..Len(A) : A[i].st = "ok" /\ (A[i].err < 0 \/ A[i].err > e.tol)}
  IN IF bad # {} THEN "form refused: " \o A[Min(bad)].form \o " " \o A[Min(bad)].exc
     ELSE IF dif # {} THEN "form differs: " \o A[Min(dif)].form
     ELSE ""

\* An integer 2^24 <= |v| < 2^30 rounded to 24 significant bits, ties to even
\* (the spacing of single precision numbers of this size is 2 to 64).
RECURSIVE Spacing(_, _)
Spacing(v, s) == IF v \div s < 16777216 THEN s ELSE Spacing(v, 2 * s)
RoundPos(v) ==
  LET s == Spacing(v, 1)
      q == v \div s
      r == v % s
      u == IF 2 * r > s \/ (2 * r = s /\ q % 2 = 1) THEN q + 1 ELSE q
  IN u * s
Round24(v) == IF v < 0 THEN -RoundPos(-v) ELSE RoundPos(v)

RoundBank(w) == [k \in {"dl", "dh", "rl", "rh"} |-> [t \in 1..Len(w[k]) |-> Mod(Round24(w[k][t]))]]

\* single precision calls on isolated unit impulses: e.wi are the integer taps
SingleVerdict(e) ==
  LET e2 == [e EXCEPT !.w = RoundBank(e.wi)]
  IN IF e.fn \in {"waverec", "iswt"} THEN RecVerdict(e2) ELSE DecVerdict(e2)

=============================================================================
