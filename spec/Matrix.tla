------------------------------- MODULE Matrix -------------------------------
(***************************************************************************)
(* The boundary-filter (matrix based) transforms.                          *)
(*                                                                         *)
(* Rows of the analysis matrix whose filter support lies inside the signal *)
(* hold the taps; the other rows are orthogonalised, their values depend   *)
(* on the method and are not promised (UNK, -1).  Likewise synthesis       *)
(* samples touched by orthogonalised columns.  Two-tap filters have no     *)
(* such rows.  Orthogonality and invertibility are stated separately.      *)
(***************************************************************************)
EXTENDS Calls

UNK == -1

\* out[k] = SUM_t f[t] x[2k + L/2 - t], t = 0..L-1; row -2: orthogonalised
Inside(n, L, k) == 2 * k - (L \div 2) + 1 >= 0 /\ 2 * k + (L \div 2) < n
MatDecOp(n, L) ==
  [n |-> n, m |-> n \div 2, L |-> L,
   src |-> TLCEval([k \in 1..(n \div 2) |->
             [t \in 1..L |-> IF Inside(n, L, k - 1) THEN 2 * (k - 1) + (L \div 2) - (t - 1) ELSE -2]])]

\* samples in the support of some orthogonalised row
Touched(n, L, j) == \E k \in 0..((n \div 2) - 1) :
                       ~Inside(n, L, k) /\ 2 * k - (L \div 2) + 1 <= j /\ j <= 2 * k + (L \div 2)

\* z[j] = SUM_k c[k] g[j - 2k + L/2 - 1]
MatRecOp(m, L) ==
  [n |-> m, m |-> 2 * m, L |-> L,
   src |-> TLCEval([j \in 1..(2 * m) |->
             [t \in 1..L |->
                LET q == j - 1 + (L \div 2) - 1 - (t - 1)
                IN IF Touched(2 * m, L, j - 1) THEN -2
                   ELSE IF q % 2 = 0 /\ q >= 0 /\ q \div 2 < m THEN q \div 2 ELSE -1]])]

\* ApplyAxis for data with unknown entries
ApplyAxisU(G, f, X, ax) ==
  LET s     == X.s
      d     == X.d
      n     == s[ax]
      m     == G.m
      inner == ProdRange(s, ax + 1, Len(s))
      outer == ProdRange(s, 1, ax - 1)
      src   == G.src
      T0    == 1..G.L
  IN [s |-> [s EXCEPT ![ax] = m],
      d |-> TLCEval([q \in 1..(outer * m * inner) |->
              LET i    == (q - 1) % inner
                  k    == ((q - 1) \div inner) % m
                  base == ((q - 1) \div (inner * m)) * n * inner + i + 1
                  row  == src[k + 1]
              IN FoldSet(LAMBDA t, a : IF a = UNK THEN UNK
                                       ELSE IF row[t] = -1 THEN a
                                       ELSE IF row[t] = -2 THEN UNK
                                       ELSE IF d[base + inner * row[t]] = UNK THEN UNK
                                       ELSE (a + f[t] * d[base + inner * row[t]]) % P,
                         0, T0)])]

TAddU(X, Y) == [s |-> X.s,
                d |-> TLCEval([i \in 1..Len(X.d) |->
                        IF X.d[i] = UNK \/ Y.d[i] = UNK THEN UNK ELSE (X.d[i] + Y.d[i]) % P])]

\* one more sample behind an odd axis
PadOdd(X, ax, mode) ==
  LET n == X.s[ax]
  IN IF n % 2 = 0 THEN X
     ELSE ApplyAxisU([n |-> n, m |-> n + 1, L |-> 1,
                      src |-> [k \in 1..(n + 1) |-> <<Ext(mode, n, k - 1)>>]], <<1>>, X, ax)

RECURSIVE PadOddAxes(_, _, _)
PadOddAxes(X, axes, mode) ==
  IF axes = <<>> THEN X ELSE PadOddAxes(PadOdd(X, Head(axes), mode), Tail(axes), mode)

RECURSIVE MatDecAll(_, _, _)
MatDecAll(X, w, axes) ==
  IF axes = <<>> THEN [k \in {<<>>} |-> X]
  ELSE LET ax == Head(axes)
           G  == MatDecOp(X.s[ax], FLen(w))
           lo == MatDecAll(ApplyAxisU(G, w.dl, X, ax), w, Tail(axes))
           hi == MatDecAll(ApplyAxisU(G, w.dh, X, ax), w, Tail(axes))
       IN TLCEval([k \in Keys(Len(axes)) |-> IF k[1] = "a" THEN lo[Tail(k)] ELSE hi[Tail(k)]])

TooShort(X, axes, L) == \E i \in 1..Len(axes) : X.s[axes[i]] < L

RECURSIVE MatDecN(_, _, _, _, _)
MatDecN(X0, w, axes, mode, J) ==
  IF J <= 0 \/ TooShort(X0, axes, FLen(w)) THEN <<X0>>
  ELSE LET X == PadOddAxes(X0, axes, mode)
           b == MatDecAll(X, w, axes)
       IN Append(MatDecN(b[AllA(Len(axes))], w, axes, mode, J - 1),
                 [k \in DetailKeys(Len(axes)) |-> b[k]])

\* the 1-D object evens the signal before anything else
MatStart(fn, X, axes, mode) == IF fn = "matrix1" THEN PadOddAxes(X, axes, mode) ELSE X

MatrixAnalysis(fn, X, w, axes, mode, level) ==
  LET J == IF level >= 0 THEN level ELSE DefaultLevel(fn, SizesOn(X, axes), FLen(w))
  IN MatDecN(MatStart(fn, X, axes, mode), w, axes, mode, J)

\* Was some sample added?
RECURSIVE PadsN(_, _, _)
PadsN(ns, L, J) ==
  IF J <= 0 \/ \E i \in 1..Len(ns) : ns[i] < L THEN FALSE
  ELSE (\E i \in 1..Len(ns) : ns[i] % 2 = 1) \/ PadsN([i \in 1..Len(ns) |-> (ns[i] + 1) \div 2], L, J - 1)

\* levels actually computed
RECURSIVE MatLevels(_, _, _)
MatLevels(ns, L, J) ==
  IF J <= 0 \/ \E i \in 1..Len(ns) : ns[i] < L THEN 0
  ELSE 1 + MatLevels([i \in 1..Len(ns) |-> (ns[i] + 1) \div 2], L, J - 1)

\* -------------------------------------------------------------- synthesis
RECURSIVE MatRecAll(_, _, _)
MatRecAll(b, w, axes) ==
  IF axes = <<>> THEN b[<<>>]
  ELSE LET n  == Len(axes)
           ax == axes[n]
           G  == MatRecOp(b[AllA(n)].s[ax], FLen(w))
           c  == TLCEval([k \in Keys(n - 1) |->
                    TAddU(ApplyAxisU(G, w.rl, b[Append(k, "a")], ax),
                          ApplyAxisU(G, w.rh, b[Append(k, "d")], ax))])
       IN MatRecAll(c, w, SubSeq(axes, 1, n - 1))

RECURSIVE MatRecN(_, _, _, _)
MatRecN(A, ds, w, axes) ==
  IF ds = <<>> THEN A
  ELSE LET R == MatRecAll([k \in Keys(Len(axes)) |-> IF k = AllA(Len(axes)) THEN A ELSE Head(ds)[k]], w, axes)
           B == IF Tail(ds) = <<>> THEN R
                ELSE CropAxes(R, axes, SizesOn(AnyDetail(Head(Tail(ds))), axes))
       IN MatRecN(B, Tail(ds), w, axes)

\* sizes as an analysis produces them, and long enough for the filter
RECURSIVE MatFits(_, _, _)
MatFits(n, ms, L) ==
  IF ms = <<>> THEN TRUE
  ELSE /\ n = Head(ms) \/ n = Head(ms) + 1
       /\ Head(ms) >= 1
       /\ 2 * Head(ms) - (IF Len(ms) > 1 /\ ms[2] = 2 * Head(ms) - 1 THEN 1 ELSE 0) >= L
       /\ MatFits(2 * Head(ms), Tail(ms), L)

MatCompatible(c, axes, L) ==
  \A i \in 1..Len(axes) :
     LET ms == [j \in 1..Len(c.ds) |-> c.ds[j].b[1].v.s[axes[i]]]
         n  == c.a.s[axes[i]]
     IN /\ \A j \in 1..Len(c.ds) : \A b \in 1..Len(c.ds[j].b) : c.ds[j].b[b].v.s[axes[i]] = ms[j]
        /\ ms # <<>> => n = ms[1]
        /\ MatFits(n, ms, L)

\* ---------------------------------------------------------------- verdicts
AgreeU(d, D) == Len(d) = Len(D) /\ \A i \in 1..Len(D) : D[i] = UNK \/ d[i] = D[i]

SwapHV(D) == [k \in DOMAIN D |-> D[CASE k = <<"a", "d">> -> <<"d", "a">>
                                     [] k = <<"d", "a">> -> <<"a", "d">> [] OTHER -> k]]

BandsVerdictU(o, D, nd, ikind, dt) ==
  IF o.kind # ikind THEN "detail container"
  ELSE IF ~WellKeyed(o, nd) THEN "detail keys"
  ELSE IF \E i \in 1..Len(o.b) : o.b[i].v.dt # dt THEN "detail dtype"
  ELSE LET b == Bands(o)
       IN IF \E k \in DOMAIN D : b[k].s # D[k].s THEN "detail shape"
          ELSE IF \E k \in DOMAIN D : ~AgreeU(b[k].d, D[k].d) THEN "detail value"
          ELSE ""

CoeffVerdictU(o, W, nd, okind, ikind, dt, sw) ==
  IF o.st # "ok" THEN "refused: " \o o.exc
  ELSE IF o.kind # okind THEN "container"
  ELSE IF Len(o.ds) # Len(W) - 1 THEN "number of levels"
  ELSE IF o.a.dt # dt THEN "approximation dtype"
  ELSE IF o.a.s # W[1].s THEN "approximation shape"
  ELSE IF ~AgreeU(o.a.d, W[1].d) THEN "approximation value"
  ELSE FirstOf([j \in 1..Len(o.ds) |->
         BandsVerdictU(o.ds[j], IF sw THEN SwapHV(W[j + 1]) ELSE W[j + 1], nd, ikind, dt)])

MDim(fn) == LvlDim(fn)
MOuter(fn) == IF fn = "matrix1" THEN "list" ELSE "tuple"
MInner(fn) == CASE fn = "matrix1" -> "tensor" [] fn = "matrix3" -> "dict" [] OTHER -> "named"

\* padding an axis of length one by reflection is refused by torch
MayRefusePad(e, axes) == e.mode = "reflect" /\ e.fn = "matrix1" /\ e.x.s[axes[1]] = 1

MDecVerdict(e) ==
  LET nd   == MDim(e.fn)
      axes == AxesOf(e, nd, Len(e.x.s))
      W    == TLCEval(MatrixAnalysis(e.fn, T(e.x), e.w, axes, e.mode, e.level))
      v    == CoeffVerdictU(e.out, W, nd, MOuter(e.fn), MInner(e.fn), e.dt, FALSE)
  IN IF e.level = 0
     THEN IF e.out.st = "err" /\ MayRefusePad(e, axes) THEN ""
          ELSE IF e.out.st = "ok" THEN "level zero accepted"
          ELSE IF e.out.exc # "ValueError" THEN "raised " \o e.out.exc ELSE ""
     ELSE IF e.out.st = "err" /\ MayRefusePad(e, axes) THEN ""
     ELSE IF v = "detail value" /\ e.fn = "matrix2s"
        /\ CoeffVerdictU(e.out, W, nd, MOuter(e.fn), MInner(e.fn), e.dt, TRUE) = ""
     THEN "KNOWN D4"
     ELSE v

MTensorVerdict(o, Z, dt) ==
  IF o.st # "ok" THEN "refused: " \o o.exc
  ELSE IF o.v.dt # dt THEN "dtype"
  ELSE IF o.v.s # Z.s THEN "shape"
  ELSE IF ~AgreeU(o.v.d, Z.d) THEN "value"
  ELSE ""

MRecVerdict(e) ==
  LET nd   == MDim(e.fn)
      axes == AxesOf(e, nd, Len(e.c.a.s))
      Z(sw) == MatRecN(T(e.c.a), [j \in 1..Len(e.c.ds) |->
                                    IF sw THEN SwapHV(Bands(e.c.ds[j])) ELSE Bands(e.c.ds[j])], e.w, axes)
      v    == TLCEval(MTensorVerdict(e.out, Z(FALSE), e.dt))
  IN IF ~MatCompatible(e.c, axes, FLen(e.w)) THEN ""
     ELSE IF v = "value" /\ e.fn = "matrix2s" /\ MTensorVerdict(e.out, Z(TRUE), e.dt) = "" THEN "KNOWN D4"
     ELSE v

=============================================================================
