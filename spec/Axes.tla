-------------------------------- MODULE Axes --------------------------------
(***************************************************************************)
(* Axes, batch dimensions and memory layout (C06), for values that are not *)
(* integral: real wavelets, boundary filters, the continuous transform.    *)
(*                                                                         *)
(* e.out    bands of one call with axes e.axes, batch dimensions and some  *)
(*          memory layout                                                  *)
(* e.parts  bands of one contiguous, unbatched call with default axes per  *)
(*          batch entry, row-major over the batch dimensions               *)
(* A band is [k |-> name, v |-> [s, d]], d fixed-point integers.  Every    *)
(* band of the batched call, sliced at the b-th batch entry with the       *)
(* transformed axes moved to the end in the given order, is the band of    *)
(* the b-th call; equality up to one unit of the fixed-point encoding plus *)
(* e.tol (the order of summation is not promised).                         *)
(***************************************************************************)
EXTENDS Calls

Abs(a) == IF a < 0 THEN -a ELSE a
Near(a, b, tol) == Abs(a - b) <= tol

Stride(s, a) == ProdRange(s, a + 1, Len(s))

\* positions that are not transformed, ascending
BatchDims(axes, rank) == SelectSeq([i \in 1..rank |-> i], LAMBDA i : \A j \in 1..Len(axes) : axes[j] # i)

\* digits of a row-major number over sizes
Digit(ns, i, b) == (b \div ProdRange(ns, i + 1, Len(ns))) % ns[i]

SumSeq(f, n) == FoldSet(LAMBDA i, a : a + f[i], 0, 1..n)

\* X at batch entry b (0-based), transformed axes last in the given order
Slice(X, axes, b) ==
  LET bd   == BatchDims(axes, Rank(X))
      bs   == [i \in 1..Len(bd) |-> X.s[bd[i]]]
      off  == SumSeq([i \in 1..Len(bd) |-> Stride(X.s, bd[i]) * Digit(bs, i, b)], Len(bd))
      ts   == [i \in 1..Len(axes) |-> X.s[axes[i]]]
      st   == [i \in 1..Len(axes) |-> Stride(X.s, axes[i])]
  IN [s |-> ts,
      d |-> TLCEval([q \in 1..ProdRange(ts, 1, Len(ts)) |->
               X.d[1 + off + SumSeq([i \in 1..Len(axes) |-> st[i] * Digit(ts, i, q - 1)], Len(axes))]])]

BandNames(bs) == {bs[i].k : i \in 1..Len(bs)}
NamedBand(bs, k) == LET i == CHOOSE i \in 1..Len(bs) : bs[i].k = k IN bs[i].v

AllNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near(u[i], v[i], tol)

AxVerdict(e) ==
  IF e.out.st # "ok" THEN "refused: " \o e.out.exc
  ELSE
  LET rank == Len(e.s)
      axes == NormAxes(e.axes, rank)
      bd   == BatchDims(axes, rank)
      bs   == [i \in 1..Len(bd) |-> e.s[bd[i]]]
      nb   == ProdRange(bs, 1, Len(bs))
      o    == e.out.bands
      BandBad(i) ==
        LET v == o[i].v
        IN IF Len(v.s) # rank THEN "rank"
           ELSE IF \E j \in 1..Len(bd) : v.s[bd[j]] # bs[j] THEN "batch shape"
           ELSE FirstOf([b \in 1..nb |->
                  LET part == NamedBand(e.parts[b], o[i].k)
                      sl   == Slice(v, axes, b - 1)
                  IN IF sl.s # part.s THEN "band shape"
                     ELSE IF ~AllNear(sl.d, part.d, e.tol) THEN "band value"
                     ELSE ""])
  IN IF Len(e.parts) # nb THEN "HARNESS: number of parts"
     ELSE IF \E b \in 1..nb : BandNames(e.parts[b]) # BandNames(o) \/ Len(e.parts[b]) # Len(o) THEN "bands"
     ELSE FirstOf([i \in 1..Len(o) |-> BandBad(i)])
=============================================================================
