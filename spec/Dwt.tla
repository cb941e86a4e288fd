-------------------------------- MODULE Dwt ---------------------------------
(***************************************************************************)
(* The discrete wavelet transform: boundary extension, analysis and        *)
(* synthesis steps, multi-level and multi-dimensional transforms.          *)
(*                                                                         *)
(* A filter bank is a record w of four tap sequences                       *)
(*   dl, dh : analysis low/high pass,  rl, rh : synthesis low/high pass.   *)
(***************************************************************************)
EXTENDS Tensor

FLen(w) == Len(w.dl)

\* ------------------------------------------------------------- extension
\* Source index of position j of the extended signal of length n, -1 for 0.
Ext(mode, n, j) ==
  CASE mode = "zero"      -> IF 0 <= j /\ j < n THEN j ELSE -1
    [] mode = "constant"  -> IF j < 0 THEN 0 ELSE IF j >= n THEN n - 1 ELSE j
    [] mode = "periodic"  -> j % n
    [] mode = "symmetric" -> LET r == j % (2 * n) IN IF r < n THEN r ELSE 2 * n - 1 - r
    [] mode = "reflect"   -> IF n = 1 THEN 0
                             ELSE LET r == j % (2 * n - 2)
                                  IN IF r < n THEN r ELSE 2 * n - 2 - r

Modes == {"zero", "constant", "periodic", "symmetric", "reflect"}

\* ---------------------------------------------------------------- 1-D step
DecLen(n, L) == (n + L - 1) \div 2

\* y[k] = SUM_t f[t] x[2k + 1 - t]
\* An even number of samples is needed behind the left extension; for odd n
\* the extension rule supplies one more sample on the right.
DecOp(mode, n, L) ==
  [n |-> n, m |-> DecLen(n, L), L |-> L,
   src |-> TLCEval([k \in 1..DecLen(n, L) |->
             [t \in 1..L |-> Ext(mode, n, 2 * (k - 1) + 2 - t)]])]

RecLen(m, L) == 2 * m - L + 2

\* z[i] = SUM_k c[k] g[i + L - 2 - 2k]
RecOp(m, L) ==
  [n |-> m, m |-> RecLen(m, L), L |-> L,
   src |-> TLCEval([i \in 1..RecLen(m, L) |->
             [t \in 1..L |-> LET j == i + L - 2 - t
                             IN IF j % 2 = 0 /\ j >= 0 /\ j \div 2 < m THEN j \div 2 ELSE -1]])]

DecAxis(X, f, mode, ax) == ApplyAxis(DecOp(mode, X.s[ax], Len(f)), f, X, ax)
RecAxis(X, f, ax) == ApplyAxis(RecOp(X.s[ax], Len(f)), f, X, ax)

\* ------------------------------------------------- n-D analysis, one level
\* Band keys are sequences over {"a","d"}, letter i = filter along axes[i].
Keys(n) == [1..n -> {"a", "d"}]
AllA(n) == [i \in 1..n |-> "a"]
DetailKeys(n) == Keys(n) \ {AllA(n)}

RECURSIVE DecBand(_, _, _, _, _)
DecBand(X, w, mode, axes, key) ==
  IF axes = <<>> THEN X
  ELSE DecBand(DecAxis(X, IF Head(key) = "a" THEN w.dl ELSE w.dh, mode, Head(axes)),
               w, mode, Tail(axes), Tail(key))

\* all bands at once, sharing the work on common prefixes
RECURSIVE DecAll(_, _, _, _)
DecAll(X, w, mode, axes) ==
  IF axes = <<>> THEN [k \in {<<>>} |-> X]
  ELSE LET ax == Head(axes)
           G  == DecOp(mode, X.s[ax], FLen(w))
           lo == DecAll(ApplyAxis(G, w.dl, X, ax), w, mode, Tail(axes))
           hi == DecAll(ApplyAxis(G, w.dh, X, ax), w, mode, Tail(axes))
       IN TLCEval([k \in Keys(Len(axes)) |->
                     IF k[1] = "a" THEN lo[Tail(k)] ELSE hi[Tail(k)]])

\* multi-level: <<approx, details_J, ..., details_1>>, details = function of keys
RECURSIVE WaveDecN(_, _, _, _, _)
WaveDecN(X, w, mode, axes, J) ==
  IF J = 0 THEN <<X>>
  ELSE LET b == DecAll(X, w, mode, axes)
           A == b[AllA(Len(axes))]
       IN Append(WaveDecN(A, w, mode, axes, J - 1),
                 [k \in DetailKeys(Len(axes)) |-> b[k]])

\* ------------------------------------------------ n-D synthesis, one level
RECURSIVE RecAll(_, _, _)
RecAll(b, w, axes) ==
  IF axes = <<>> THEN b[<<>>]
  ELSE LET n  == Len(axes)
           ax == axes[n]
           c  == TLCEval([k \in Keys(n - 1) |->
                    TAdd(RecAxis(b[Append(k, "a")], w.rl, ax),
                         RecAxis(b[Append(k, "d")], w.rh, ax))])
       IN RecAll(c, w, SubSeq(axes, 1, n - 1))

\* sizes along the transformed axes
SizesOn(X, axes) == [i \in 1..Len(axes) |-> X.s[axes[i]]]

\* One level: approximation A and details D.
RecStep(A, D, w, axes) ==
  RecAll([k \in Keys(Len(axes)) |-> IF k = AllA(Len(axes)) THEN A ELSE D[k]], w, axes)

AnyDetail(D) == D[CHOOSE k \in DOMAIN D : TRUE]

\* ds: sequence of details, coarsest first
RECURSIVE WaveRecN(_, _, _, _)
WaveRecN(A, ds, w, axes) ==
  IF ds = <<>> THEN A
  ELSE LET R == RecStep(A, Head(ds), w, axes)
           B == IF Tail(ds) = <<>> THEN R
                ELSE CropAxes(R, axes, SizesOn(AnyDetail(Head(Tail(ds))), axes))
       IN WaveRecN(B, Tail(ds), w, axes)

\* ------------------------------------------------------------- level rule
\* the largest j with (L-1) * 2^j <= n (0 if there is none)
RECURSIVE LevelUp(_, _, _)
LevelUp(n, c, j) == IF 2 * c <= n THEN LevelUp(n, 2 * c, j + 1) ELSE j
MaxLevel(n, L) == IF L - 1 > n THEN 0 ELSE LevelUp(n, L - 1, 0)
MaxLevelN(sizes, L) == Min({MaxLevel(sizes[i], L) : i \in 1..Len(sizes)})

=============================================================================
