------------------------------ MODULE Boundary ------------------------------
(***************************************************************************)
(* Orthogonality and invertibility of the boundary-filter transforms (C08) *)
(*                                                                         *)
(* Matrices are logged in fixed point with 24 fractional bits, split into  *)
(* v = hi * 2^12 + lo so that the products below fit 32 bits.  An inner    *)
(* product of two rows is computed in units of 2^-36; e.tol bounds its     *)
(* distance to the entry of the unit matrix.                               *)
(***************************************************************************)
EXTENDS Axes, Matrix

IntSum(S, f(_)) == FoldSet(LAMBDA k, a : a + f(k), 0, S)

\* Is SUM_k a(k) b(k) = delta, up to tol?  a, b: index -> position in the limbs
DotNear(A, B, n, ia(_), ib(_), delta, tol) ==
  LET D  == IntSum(1..n, LAMBDA k : A.hi[ia(k)] * B.hi[ib(k)]) - delta * 16777216
      M  == IntSum(1..n, LAMBDA k : A.hi[ia(k)] * B.lo[ib(k)] + A.lo[ia(k)] * B.hi[ib(k)])
      R  == IntSum(1..n, LAMBDA k : (A.lo[ia(k)] * B.lo[ib(k)]) \div 4096)
  IN /\ Abs(D) <= 200000
     /\ Abs(D * 4096 + M + R) <= tol

\* A is orthogonal, S its inverse (n x n, row-major)
BmatVerdict(e) ==
  IF e.out.st # "ok" THEN "refused: " \o e.out.exc
  ELSE
  LET n == e.n
      A == e.out.A
      S == e.out.S
  IN IF A.s # <<n, n>> THEN "shape of the analysis matrix"
     ELSE IF S.s # <<n, n>> THEN "shape of the synthesis matrix"
     ELSE IF A.dt # e.dt \/ S.dt # e.dt THEN "dtype"
     ELSE IF \E i \in 1..n : \E j \in i..n :
               ~DotNear(A, A, n, LAMBDA k : (i - 1) * n + k, LAMBDA k : (j - 1) * n + k,
                        IF i = j THEN 1 ELSE 0, e.tol)
          THEN "analysis matrix not orthogonal"
     ELSE IF \E i \in 1..n : \E j \in 1..n :
               ~DotNear(S, A, n, LAMBDA k : (i - 1) * n + k, LAMBDA k : (k - 1) * n + j,
                        IF i = j THEN 1 ELSE 0, e.tol)
          THEN "synthesis matrix not the inverse"
     ELSE ""

MatPadded(fn, ns, L, J) == IF fn = "matrix1" /\ ns[1] % 2 = 1 THEN TRUE ELSE PadsN(ns, L, J)
Evened(fn, ns) == IF fn = "matrix1" THEN [i \in 1..Len(ns) |-> ns[i] + (ns[i] % 2)] ELSE ns

\* levels the analysis object computes
MatJ(e, ns) ==
  LET J == IF e.level >= 0 THEN e.level ELSE DefaultLevel(e.fn, ns, e.L)
  IN MatLevels(Evened(e.fn, ns), e.L, J)

\* analysis object followed by synthesis object: restored signal, kept energy
MrtVerdict(e) ==
  LET nd   == MDim(e.fn)
      axes == AxesOf(e, nd, Len(e.x.s))
      ns   == SizesOn(e.x, axes)
      J    == MatJ(e, ns)
      v    == RestoreVerdict(e.out, T(e.x), axes, TRUE, e.dt)
  IN IF v # "" THEN v
     ELSE IF e.out.n # J THEN "number of levels"
     ELSE IF ~MatPadded(e.fn, ns, e.L, J)
             /\ e.out.en # IntSum(1..Len(e.xi), LAMBDA i : e.xi[i] * e.xi[i])
          THEN "energy"
     ELSE ""

\* Published operator of an analysis object, applied to the flattened signal
\* (columns: batch entries; images column by column), against its coefficients.
FlatRow(bs, nd, r) ==  \* band and row-major position of row r (0-based)
  LET sz(i) == ProdRange(bs[i].v.s, Len(bs[i].v.s) - nd + 1, Len(bs[i].v.s))
      start(i) == IntSum(1..(i - 1), LAMBDA k : sz(k))
      b  == CHOOSE i \in 1..Len(bs) : start(i) <= r /\ r < start(i) + sz(i)
      s  == bs[b].v.s
      p  == r - start(b)
      h  == s[Len(s) - 1]
      w  == s[Len(s)]
  IN <<b, IF nd = 1 THEN p ELSE (p % h) * w + (p \div h)>>

MopVerdict(e) ==
  LET nd   == MDim(e.fn)
      axes == AxesOf(e, nd, Len(e.s))
      ns   == SizesOn([s |-> e.s, d |-> <<>>], axes)
      J    == MatJ(e, ns)
      pad  == MatPadded(e.fn, ns, e.L, J)
      want == IF e.fn = "matrix2s" THEN "NotImplementedError"
              ELSE IF J = 0 THEN "ValueError"
              ELSE IF J > 1 /\ PadsN(Evened(e.fn, ns), e.L, J) THEN "NotImplementedError"
              ELSE ""
      o    == e.out
      \* bands in the order of the rows of the operator
      N    == IntSum(1..Len(e.bands), LAMBDA i : ProdRange(e.bands[i].v.s, Len(e.bands[i].v.s) - nd + 1, Len(e.bands[i].v.s)))
  IN IF want # "" THEN (IF o.st = "ok" THEN "operator published" ELSE IF o.exc # want THEN "raised " \o o.exc ELSE "")
     ELSE IF pad THEN ""
     ELSE IF o.st # "ok" THEN "refused: " \o o.exc
     ELSE IF o.v.s # <<N, e.nb>> THEN "operator shape"
     ELSE IF \E r \in 0..(N - 1) : \E b \in 0..(e.nb - 1) :
               LET f == FlatRow(e.bands, nd, r)
                   V == e.bands[f[1]].v
                   per == ProdRange(V.s, Len(V.s) - nd + 1, Len(V.s))
               IN ~Near(o.v.d[r * e.nb + b + 1], V.d[b * per + f[2] + 1], e.tol)
          THEN "operator value"
     ELSE ""

\* Published operator of a synthesis object, applied to the flattened
\* coefficients, against the signal the object restored from them.  e.s: twice
\* the sizes of the finest details; e.J: number of detail levels (-1: the
\* object was not called yet); e.r: the restored signal.
MopiVerdict(e) ==
  LET nd   == MDim(e.fn)
      want == IF e.fn = "matrix2s" THEN "NotImplementedError"
              ELSE IF e.J <= 0 THEN "ValueError"
              ELSE IF e.J > 1 /\ PadsN(e.s, e.L, e.J) THEN "NotImplementedError"
              ELSE ""
      o    == e.out
      N    == ProdRange(e.r.s, Len(e.r.s) - nd + 1, Len(e.r.s))
      h    == e.r.s[Len(e.r.s) - 1]
      w    == e.r.s[Len(e.r.s)]
      at(r) == IF nd = 1 THEN r ELSE (r % h) * w + (r \div h)
  IN IF want # "" THEN (IF o.st = "ok" THEN "operator published" ELSE IF o.exc # want THEN "raised " \o o.exc ELSE "")
     ELSE IF o.st # "ok" THEN "refused: " \o o.exc
     ELSE IF o.v.s # <<N, e.nb>> THEN "operator shape"
     ELSE IF \E r \in 0..(N - 1) : \E b \in 0..(e.nb - 1) :
               ~Near(o.v.d[r * e.nb + b + 1], e.r.d[b * N + at(r) + 1], e.tol)
          THEN "operator value"
     ELSE ""
=============================================================================
