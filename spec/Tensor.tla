------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Tensors of any rank: [s |-> shape, d |-> row-major data], both          *)
(* sequences, entries in 0..P-1.                                           *)
(*                                                                         *)
(* Every one-dimensional step of the library is a *gather operator*        *)
(*      out[k] = SUM_t  f[t] * x[src(k,t)]                                 *)
(* [n |-> input length, m |-> output length, L |-> number of taps,         *)
(*  src |-> m sequences of L zero-based source indices, -1 for "zero"].    *)
(* It acts along one axis and leaves all other axes (batch) alone.         *)
(***************************************************************************)
EXTENDS Arith

Rank(X) == Len(X.s)
Size(X) == ProdRange(X.s, 1, Len(X.s))
WellFormed(X) == Len(X.d) = Size(X)

\* Python-style axis (negative counts from the end) -> 1-based axis
NormAxis(a, rank) == IF a < 0 THEN a + rank + 1 ELSE a + 1
NormAxes(as, rank) == [i \in 1..Len(as) |-> NormAxis(as[i], rank)]

ApplyAxis(G, f, X, ax) ==
  LET s     == X.s
      d     == X.d
      n     == s[ax]
      m     == G.m
      inner == ProdRange(s, ax + 1, Len(s))
      outer == ProdRange(s, 1, ax - 1)
      src   == G.src
      T     == 1..G.L
  IN [s |-> [s EXCEPT ![ax] = m],
      d |-> TLCEval([q \in 1..(outer * m * inner) |->
              LET i    == (q - 1) % inner
                  k    == ((q - 1) \div inner) % m
                  base == ((q - 1) \div (inner * m)) * n * inner + i + 1
                  row  == src[k + 1]
              IN FoldSet(LAMBDA t, a : IF row[t] < 0 THEN a
                                       ELSE (a + f[t] * d[base + inner * row[t]]) % P,
                         0, T)])]

TAdd(X, Y) == [s |-> X.s, d |-> TLCEval([i \in 1..Len(X.d) |-> (X.d[i] + Y.d[i]) % P])]
TScale(c, X) == [s |-> X.s, d |-> TLCEval([i \in 1..Len(X.d) |-> (c * X.d[i]) % P])]
TZero(s) == [s |-> s, d |-> TLCEval([i \in 1..ProdRange(s, 1, Len(s)) |-> 0])]

\* first m entries along an axis
Crop(X, ax, m) ==
  LET s     == X.s
      n     == s[ax]
      inner == ProdRange(s, ax + 1, Len(s))
      outer == ProdRange(s, 1, ax - 1)
      d     == X.d
  IN IF n = m THEN X
     ELSE [s |-> [s EXCEPT ![ax] = m],
           d |-> TLCEval([q \in 1..(outer * m * inner) |->
                LET i == (q - 1) % inner
                    k == ((q - 1) \div inner) % m
                    o == (q - 1) \div (inner * m)
                IN d[(o * n + k) * inner + i + 1]])]

RECURSIVE CropAxes(_, _, _)
CropAxes(X, axes, sizes) ==
  IF axes = <<>> THEN X
  ELSE CropAxes(Crop(X, Head(axes), Head(sizes)), Tail(axes), Tail(sizes))

\* inner product of all entries
TDot(X, Y) == Dot(X.d, Y.d)

\* Sub-tensor with index j (1-based) on the first axis
First(X, j) ==
  LET inner == ProdRange(X.s, 2, Len(X.s))
  IN [s |-> Tail(X.s), d |-> SubSeq(X.d, (j - 1) * inner + 1, j * inner)]

=============================================================================
