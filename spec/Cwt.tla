-------------------------------- MODULE Cwt ---------------------------------
(***************************************************************************)
(* The continuous transform (C16).                                         *)
(*                                                                         *)
(* e.psi.re/im   samples of the wavelet on its grid (integers), e.stn/e.std *)
(*               the grid's step, e.scales = <<a, b>> for the scale (a/b)^2 *)
(* e.out         results divided by step/b, so that they are integers      *)
(*                                                                         *)
(* At scale s the integral of the wavelet is sampled at the grid points    *)
(* floor(i/(s*step)), i = 0..ceil(s*span), as far as the grid reaches.     *)
(***************************************************************************)
EXTENDS Calls

CeilDiv(a, b) == (a + b - 1) \div b

\* raw cumulative sums, without the factor step
RECURSIVE Scan(_, _)
Scan(p, d) == IF d >= Len(p) THEN p
              ELSE Scan(TLCEval([i \in 1..Len(p) |-> IF i > d THEN (p[i] + p[i - d]) % P ELSE p[i]]), 2 * d)
CumSum(p) == Scan(p, 1)

\* number of samples of the wavelet at scale sc
ScaleLen(e, sc) ==
  LET num  == sc[1] * sc[1] * e.stn            \* s*step = num/den
      den  == sc[2] * sc[2] * e.std
      len  == Len(e.psi.re)
  IN Cardinality({i \in 0..CeilDiv(num * (len - 1), den) : (i * den) \div num < len})

ScaleIndex(e, sc, m) ==
  LET num == sc[1] * sc[1] * e.stn
      den == sc[2] * sc[2] * e.std
  IN [i \in 0..m - 1 |-> (i * den) \div num]

\* Row of the transform of signal x (sequence): the centred n entries of the
\* differences of the convolution with the reversed samples.
ScaleRow(cum, J, m, a, x, off, n) ==
  LET H(i) == IF i < 0 \/ i > m - 1 THEN 0 ELSE cum[J[m - 1 - i] + 1]
      g    == TLCEval([i \in 0..m |-> (H(i) - H(i - 1)) % P])
      f    == (m - 2) \div 2
  IN [k \in 0..n - 1 |->
        Mul(P - a,
          FoldSet(LAMBDA s, acc : (acc + x[off + s + 1] * g[k + f + 1 - s]) % P, 0,
                  Max2(0, k + f + 1 - m)..Min2(n - 1, k + f + 1)))]

\* all rows, row-major over (scale, batch, time)
CwtData(e, psi, sign) ==
  LET cum == TLCEval(CumSum(psi))
      n   == e.x.s[Len(e.x.s)]
      nb  == ProdRange(e.x.s, 1, Len(e.x.s) - 1)
      S   == Len(e.scales)
      R   == TLCEval([j \in 1..S |->
               LET m == TLCEval(ScaleLen(e, e.scales[j]))
                   J == TLCEval(ScaleIndex(e, e.scales[j], m))
               IN [b \in 1..nb |-> ScaleRow(cum, J, m, sign * e.scales[j][1], e.x.d, (b - 1) * n, n)]])
  IN [q \in 1..S * nb * n |-> R[((q - 1) \div (nb * n)) + 1][(((q - 1) \div n) % nb) + 1][(q - 1) % n]]

CwtVerdict(e) ==
  LET small == \E j \in 1..Len(e.scales) : ScaleLen(e, e.scales[j]) < 2
      o     == e.out
  IN IF small THEN IF o.st = "ok" THEN "scale too small accepted"
                   ELSE IF o.exc # "ValueError" THEN "scale too small: " \o o.exc
                   ELSE ""
     ELSE IF o.st # "ok" THEN "refused: " \o o.exc
     ELSE IF o.cplx # e.cplx THEN "realness"
     ELSE IF o.re.s # <<Len(e.scales)>> \o e.x.s THEN "shape"
     ELSE IF o.re.d # CwtData(e, e.psi.re, 1) THEN "value"
     \* the wavelet is conjugated
     ELSE IF e.cplx /\ o.im.d # CwtData(e, e.psi.im, -1) THEN "imaginary part"
     ELSE IF o.fr < 0 \/ o.fr > 16 THEN "frequencies"
     ELSE ""

\* Sampled wavelets by name or object.  e.alts: largest deviations of the whole call
\* from other calls whose results have to agree with it (see harness/props/c16.py).
CwtNamedVerdict(e) ==
  LET o == e.out
      \* reach: length of the sampled grid in signal samples, in thousandths
      small == \E j \in 1..Len(e.reach) : e.reach[j] <= 1000
  IN IF small THEN IF o.st = "ok" THEN "scale too small accepted"
                     ELSE IF o.exc # "ValueError" THEN "scale too small: " \o o.exc
                     ELSE ""
     ELSE IF o.st # "ok" THEN "refused: " \o o.exc
     ELSE IF o.cplx # e.cplx THEN "realness"
     ELSE IF o.s # <<Len(e.reach)>> \o e.s THEN "shape"
     ELSE IF o.fr < 0 \/ o.fr > 16 THEN "frequencies"
     ELSE FirstOf([i \in 1..Len(e.alts) |->
            IF e.alts[i].err < 0 \/ e.alts[i].err > e.tol THEN "differs from " \o e.alts[i].k ELSE ""])
=============================================================================
