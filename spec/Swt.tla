-------------------------------- MODULE Swt ---------------------------------
(***************************************************************************)
(* The stationary (undecimated) transform.                                 *)
(***************************************************************************)
EXTENDS Dwt

\* level j (dilation d = 2^(j-1)):  out[k] = SUM_t f[t] x[(k + d(L/2 - t)) mod n]
\* with t = 0..L-1, i.e. a convolution with the dilated filter, aligned so that
\* tap L/2 hits the sample itself (PyWavelets' alignment).
SwtOp(n, L, d) ==
  [n |-> n, m |-> n, L |-> L,
   src |-> TLCEval([k \in 1..n |-> [t \in 1..L |-> (k - 1 + d * (L \div 2 - (t - 1))) % n]])]

\* inverse: out[i] = 1/2 SUM_t g[t] c[(i + d(L/2 - 1 - t)) mod n]
ISwtOp(n, L, d) ==
  [n |-> n, m |-> n, L |-> L,
   src |-> TLCEval([k \in 1..n |-> [t \in 1..L |-> (k - 1 + d * (L \div 2 - 1 - (t - 1))) % n]])]

RECURSIVE SwtN(_, _, _, _, _)
SwtN(X, w, ax, J, d) ==
  IF J = 0 THEN <<X>>
  ELSE LET G == SwtOp(X.s[ax], FLen(w), d)
       IN Append(SwtN(ApplyAxis(G, w.dl, X, ax), w, ax, J - 1, 2 * d),
                 [k \in {<<"d">>} |-> ApplyAxis(G, w.dh, X, ax)])

RECURSIVE ISwtN(_, _, _, _)
ISwtN(A, ds, w, ax) ==
  IF ds = <<>> THEN A
  ELSE LET d == Pow2(Len(ds) - 1)
           G == ISwtOp(A.s[ax], Len(w.rl), d)
           R == TAdd(ApplyAxis(G, w.rl, A, ax), ApplyAxis(G, w.rh, Head(ds), ax))
       IN ISwtN(TScale(Inv2, R), Tail(ds), w, ax)

\* number of times n is divisible by two
RECURSIVE SwtMax(_)
SwtMax(n) == IF n % 2 = 0 THEN 1 + SwtMax(n \div 2) ELSE 0

=============================================================================
