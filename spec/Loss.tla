-------------------------------- MODULE Loss --------------------------------
(***************************************************************************)
(* Losses of the learnable wavelets: sums of squared residuals of the      *)
(* filter-bank identities.  Z-transforms are polynomials; coefficient n of *)
(* a product is PolyCoef(f, g, n).                                         *)
(***************************************************************************)
EXTENDS Calls

Sq(a) == Mul(a, a)
SqSum(S, f(_)) == SumOver(S, LAMBDA n : Sq(f(n)))
Sub(a, b) == (a - b + P) % P

\* DL(z) RL(z) + DH(z) RH(z) = 2 z^(L-1)
PrLoss(w) ==
  LET L == FLen(w)
  IN SqSum(0..(2 * L - 2), LAMBDA n :
       Sub(Add(PolyCoef(w.dl, w.rl, n), PolyCoef(w.dh, w.rh, n)), IF n = L - 1 THEN 2 ELSE 0))

\* DL(-z) RL(z) + DH(-z) RH(z) = 0
AliasLoss(w) ==
  SqSum(0..(2 * FLen(w) - 2), LAMBDA n : Add(PolyCoef(Alt(w.dl), w.rl, n), PolyCoef(Alt(w.dh), w.rh, n)))

\* RL(z) = -DH(-z), RH(z) = DL(-z)  (coefficientwise, the sign alternates)
PfAliasLoss(w) ==
  LET L == FLen(w)
      \* sign of tap t (1-based): the last tap has sign +
      sg(t) == IF (L - t) % 2 = 0 THEN 1 ELSE P - 1
  IN Add(SqSum(1..L, LAMBDA t : Sub(w.rl[t], Mul(sg(t), w.dh[t]))),
         SqSum(1..L, LAMBDA t : Add(w.rh[t], Mul(sg(t), w.dl[t]))))

\* even shifts of the analysis low pass are orthonormal
OrthLoss(w) ==
  LET L == FLen(w)
      corr(k) == SumOver(1..(L - 2 * k), LAMBDA t : w.dl[t] * w.dl[t + 2 * k])
  IN SqSum(0..(L \div 2), LAMBDA k : Sub(corr(k), IF k = 0 THEN 1 ELSE 0))

\* the synthesis filters are the reversed analysis filters
FiltOrthLoss(w) ==
  LET L == FLen(w)
  IN Add(SqSum(1..L, LAMBDA t : Sub(w.dl[t], w.rl[L + 1 - t])),
         SqSum(1..L, LAMBDA t : Sub(w.dh[t], w.rh[L + 1 - t])))

ProductLoss(w) == Add(PrLoss(w), AliasLoss(w))
TotalLoss(e) == IF e.cls = "soft" THEN Add(ProductLoss(e.w), FiltOrthLoss(e.w)) ELSE ProductLoss(e.w)

LossOf(e, name) ==
  CASE name = "pr" -> PrLoss(e.w)
    [] name = "alias" -> AliasLoss(e.w)
    [] name = "pf_alias" -> PfAliasLoss(e.w)
    [] name = "orth" -> OrthLoss(e.w)
    [] name = "filt_orth" -> FiltOrthLoss(e.w)
    [] name = "product" -> ProductLoss(e.w)
    [] name = "total" -> TotalLoss(e)

\* e.out.ls: sequence of [n |-> name, v |-> scalar tensor, neg |-> sign bit]
LossVerdict(e) ==
  IF e.out.st # "ok" THEN "refused: " \o e.out.exc
  ELSE FirstOf([i \in 1..Len(e.out.ls) |->
         LET o == e.out.ls[i]
         IN IF o.neg THEN "negative loss: " \o o.n
            ELSE IF Len(o.v.d) # 1 \/ o.v.s # <<>> THEN "loss is no scalar: " \o o.n
            ELSE IF o.v.d[1] # LossOf(e, o.n) THEN "loss value: " \o o.n ELSE ""])

=============================================================================
