-------------------------------- MODULE Grad --------------------------------
(***************************************************************************)
(* Backpropagation.  For a linear call F and a cotangent c of its result   *)
(* the gradient g has to satisfy  <F(x'), c> = <x', g>  for every x'; it   *)
(* is checked for the random input of the call (a wrong g passes with      *)
(* probability 1/P).  For the taps, in which the call is a polynomial of   *)
(* degree D <= 4, <d, gw> has to be the derivative of <F_w(x), c> along a  *)
(* random direction d, computed exactly by interpolation.                  *)
(***************************************************************************)
EXTENDS Matrix, Loss

Inv12 == 30020                   \* 12 * Inv12 = 1 (mod P)

\* <W, ct> for a coefficient structure
RECURSIVE DotDetails(_, _, _)
DotDetails(W, ds, j) ==
  IF j > Len(ds) THEN 0
  ELSE LET b == Bands(ds[j])
           D == TLCEval(W[j + 1])
           v == SumOver(DOMAIN D, LAMBDA k : TDot(D[k], b[k]))
       IN (v + DotDetails(W, ds, j + 1)) % P
DotCoeffs(W0, ct) ==
  LET W == TLCEval(W0)
  IN Add(TDot(W[1], T(ct.a)), DotDetails(W, ct.ds, 1))

IsRec(e) == e.kind = "rec"

GAnalysis(e) ==
  IF IsMatrix(e.fn)
  THEN MatrixAnalysis(e.fn, T(e.x), e.w, AxesOf(e, MDim(e.fn), Len(e.x.s)), e.mode, e.level)
  ELSE Analysis(e)

GSynthesis(e) ==
  IF IsMatrix(e.fn)
  THEN MatRecN(T(e.c.a), DsOf(e.c), e.w, AxesOf(e, MDim(e.fn), Len(e.c.a.s)))
  ELSE Synthesis(e.fn, e.c, e.w, AxesOf(e, NDim(e.fn), Len(e.c.a.s)))

\* <F_w(x), c> for the bank w
Pairing(e, w) ==
  LET e2 == TLCEval([e EXCEPT !.w = w])
  IN IF IsRec(e) THEN TDot(TLCEval(GSynthesis(e2)), T(e.ct)) ELSE DotCoeffs(GAnalysis(e2), e.ct)

\* the recorded gradients of an input tensor
ShapeBad(v, x, dt) == v.s # x.s \/ v.dt # dt \/ Len(v.d) # Len(x.d) \/ \E i \in 1..Len(v.d) : v.d[i] < 0

\* another input of the same form (data at which a shortcut may be taken, such as zeros,
\* must not hide what the gradient says about other data)
Probed(e) == IF IsRec(e) THEN [e EXCEPT !.c = e.pc] ELSE [e EXCEPT !.x = e.px]

InputPair(e) ==
  IF ~IsRec(e) THEN TDot(T(e.x), T(e.g.a))
  ELSE (TDot(T(e.c.a), T(e.g.a)) +
        SumOver(1..Len(e.c.ds), LAMBDA j :
          SumOver(1..Len(e.c.ds[j].b), LAMBDA i : TDot(T(e.c.ds[j].b[i].v), T(e.g.ds[j].b[i].v))))) % P

InputBad(e) ==
  IF ~IsRec(e) THEN ShapeBad(e.g.a, e.x, e.dt)
  ELSE \/ ShapeBad(e.g.a, e.c.a, e.dt)
       \/ \E j \in 1..Len(e.c.ds) : \E i \in 1..Len(e.c.ds[j].b) :
            ShapeBad(e.g.ds[j].b[i].v, e.c.ds[j].b[i].v, e.dt)

\* ------------------------------------------------------------------- taps
Taps == {"dl", "dh", "rl", "rh"}
Along(w, d, k) == [f \in Taps |-> [t \in 1..Len(w[f]) |-> (w[f][t] + k * d[f][t]) % P]]

\* derivative at 0 of a polynomial of degree at most 4
Derivative(f(_)) ==
  LET v == TLCEval(<<f(-2), f(-1), f(1), f(2)>>)
  IN Mul(Inv12, (v[1] - 8 * v[2] + 8 * v[3] - v[4]) % P)

TapPair(e) == SumOver(Taps, LAMBDA f : Dot(e.d[f], e.gw[f].d))
TapBad(e) == \E f \in Taps : \/ e.gw[f].s # <<Len(e.w[f])>>
                             \/ e.gw[f].dt # e.wdt
                             \/ \E t \in 1..Len(e.gw[f].d) : e.gw[f].d[t] < 0

Forward(e) ==
  CASE IsMatrix(e.fn) /\ IsRec(e) -> MRecVerdict(e)
    [] IsMatrix(e.fn) -> MDecVerdict(e)
    [] IsRec(e) -> RecVerdict(e)
    [] OTHER -> DecVerdict(e)

GradVerdict(e) ==
  LET v == Forward(e)
  IN IF v # "" THEN v
     ELSE IF e.out.st # "ok" THEN ""
     ELSE IF e.same = 0 THEN "forward value changes with gradients enabled"
     ELSE IF e.back.st # "ok" THEN "backpropagation failed: " \o e.back.exc
     ELSE IF InputBad(e) THEN "gradient form"
     ELSE IF InputPair(Probed(e)) # Pairing(Probed(e), e.w) THEN "input gradient"
     ELSE IF ~e.taps THEN ""
     ELSE IF TapBad(e) THEN "tap gradient form"
     ELSE IF TapPair(e) # Derivative(LAMBDA k : Pairing(e, Along(e.w, e.d, k))) THEN "tap gradient"
     ELSE ""

\* losses of the filter modules: value, then gradient along a random direction
LossGradVerdict(e) ==
  LET v == LossVerdict(e)
  IN IF v # "" \/ ~e.grad THEN v
     ELSE FirstOf([i \in 1..Len(e.out.ls) |->
            LET o == e.out.ls[i]
            IN IF \E f \in Taps : \E t \in 1..Len(o.gw[f].d) : o.gw[f].d[t] < 0 THEN "loss gradient form: " \o o.n
               ELSE IF SumOver(Taps, LAMBDA f : Dot(e.d[f], o.gw[f].d))
                       # Derivative(LAMBDA k : LossOf([e EXCEPT !.w = TLCEval(Along(e.w, e.d, k))], o.n))
               THEN "loss gradient: " \o o.n ELSE ""])

\* real data: A = <F(x'), c>, B = <x', g> or a difference quotient; dev is their
\* difference relative to the norms, in units of 2^-bits
AdjointVerdict(e) ==
  IF e.out.st # "ok" THEN "failed: " \o e.out.exc
  ELSE IF e.out.same > e.tol THEN "forward value changes with gradients enabled"
  ELSE IF \E i \in 1..Len(e.out.dev) : e.out.dev[i] > e.tol THEN "gradient"
  ELSE ""

\* ------------------------------------------------- function transforms (C26)
\* Derivative along the taps e.d by forward mode: e.tan is the tangent of the result,
\* paired with the random cotangent e.ct.
TanPair(e) ==
  IF IsRec(e) THEN TDot(T(e.tan), T(e.ct))
  ELSE (TDot(T(e.tan.a), T(e.ct.a)) +
        SumOver(1..Len(e.ct.ds), LAMBDA j :
          SumOver(1..Len(e.ct.ds[j].b), LAMBDA i : TDot(T(e.tan.ds[j].b[i].v), T(e.ct.ds[j].b[i].v))))) % P

TanBad(e) ==
  LET bad(v, c) == v.s # c.s \/ v.dt # e.dt \/ \E i \in 1..Len(v.d) : v.d[i] < 0
  IN IF IsRec(e) THEN bad(e.tan, e.ct)
     ELSE \/ bad(e.tan.a, e.ct.a)
          \/ \E j \in 1..Len(e.ct.ds) : \E i \in 1..Len(e.ct.ds[j].b) :
               bad(e.tan.ds[j].b[i].v, e.ct.ds[j].b[i].v)

\* e.k = "hess": e.gw is the gradient with respect to the taps of <v, J^T c>, J^T c being
\* the gradient with respect to the data: the derivative of <F_w(v), c> by the taps.
FuncVerdict(e) ==
  LET v  == Forward(e)
      at == IF e.k = "jvpw" THEN e ELSE IF IsRec(e) THEN [e EXCEPT !.c = e.vc] ELSE [e EXCEPT !.x = e.vx]
  IN IF v # "" THEN v
     ELSE IF e.out.st # "ok" THEN ""
     ELSE IF e.back.st # "ok" THEN "differentiation failed: " \o e.back.exc
     ELSE IF e.k = "jvpw"
     THEN IF TanBad(e) THEN "tangent form"
          ELSE IF TanPair(e) # Derivative(LAMBDA k : Pairing(e, Along(e.w, e.d, k))) THEN "tangent of the taps" ELSE ""
     ELSE IF TapBad(e) THEN "second derivative form"
     ELSE IF TapPair(e) # Derivative(LAMBDA k : Pairing(at, Along(e.w, e.d, k))) THEN "second derivative" ELSE ""

=============================================================================
