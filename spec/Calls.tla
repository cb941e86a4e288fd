------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* The public functions of the library as specification operators, and    *)
(* the verdict on an observed call: "" if the specification allows it,     *)
(* otherwise the name of the violated clause.                              *)
(*                                                                         *)
(* An observed call is a record e with                                     *)
(*   e.op   what was called            e.fn   the public function          *)
(*   e.mode boundary mode              e.axes axes as passed, <<>> = none  *)
(*   e.level level as passed, -1 = none                                    *)
(*   e.w    filter bank (residues)     e.dt   dtype of the input           *)
(*   e.x / e.c  input tensor / input coefficients                          *)
(*   e.out  [st |-> "ok", ...] or [st |-> "err", exc |-> type]             *)
(***************************************************************************)
EXTENDS Swt

NDim(fn) == CASE fn \in {"wavedec", "waverec", "swt", "iswt"} -> 1
              [] fn \in {"wavedec2", "waverec2", "fswavedec2", "fswaverec2"} -> 2
              [] fn \in {"wavedec3", "waverec3", "fswavedec3", "fswaverec3"} -> 3

IsFs(fn) == fn \in {"fswavedec2", "fswavedec3", "fswaverec2", "fswaverec3"}

\* kind of the coefficient container and of its detail entries
OuterKind(fn) == IF fn \in {"wavedec", "swt"} THEN "list" ELSE "tuple"
InnerKind(fn) == CASE fn \in {"wavedec", "swt"} -> "tensor"
                   [] fn = "wavedec2" -> "named"
                   [] OTHER -> "dict"

DefaultAxes(nd) == [i \in 1..nd |-> i - nd - 1]
AxesOf(e, nd, rank) == NormAxes(IF e.axes = <<>> THEN DefaultAxes(nd) ELSE e.axes, rank)

\* horizontal: high pass along the first transformed axis, and so on
KeyOf(k) == CASE k = <<"H">> -> <<"d", "a">>
              [] k = <<"V">> -> <<"a", "d">>
              [] k = <<"D">> -> <<"d", "d">>
              [] OTHER -> k

\* --------------------------------------------------------- reading structures
BandKeys(d) == {KeyOf(d.b[i].k) : i \in 1..Len(d.b)}
Bands(d) == TLCEval([k \in BandKeys(d) |->
              LET i == CHOOSE i \in 1..Len(d.b) : KeyOf(d.b[i].k) = k
              IN [s |-> d.b[i].v.s, d |-> d.b[i].v.d]])
WellKeyed(d, nd) == BandKeys(d) = DetailKeys(nd) /\ Len(d.b) = Cardinality(DetailKeys(nd))

T(x) == [s |-> x.s, d |-> x.d]

\* ----------------------------------------------------------------- levels
RECURSIVE Log2Ratio(_, _, _)
\* int(log2(n / c)) for n >= c >= 1, truncation towards zero below
Log2Ratio(n, c, j) == IF 2 * c <= n THEN Log2Ratio(n, 2 * c, j + 1) ELSE j

DefaultLevel(fn, sizes, L) ==
  CASE fn = "swt" -> SwtMax(sizes[1])
    \* the 1-D boundary-filter transform evens an odd signal first
    [] fn = "matrix1" -> MaxLevel(sizes[1] + (sizes[1] % 2), L)
    [] OTHER -> MaxLevelN(sizes, L)

LevelOf(e, sizes, L) == IF e.level >= 0 THEN e.level ELSE DefaultLevel(e.fn, sizes, L)

\* torch refuses paddings that are wider than the signal for two of the modes
RECURSIVE PadFits(_, _, _, _)
PadFits(mode, n, L, J) ==
  IF J = 0 THEN TRUE
  ELSE LET p == ((2 * L - 3) \div 2) + (n % 2)
       IN /\ mode = "reflect" => p <= n - 1
          /\ mode = "periodic" => p <= n
          /\ PadFits(mode, DecLen(n, L), L, J - 1)

MayRefuse(mode, sizes, L, J) == \E i \in 1..Len(sizes) : ~PadFits(mode, sizes[i], L, J)

\* ---------------------------------------------------------------- analysis
Analysis(e) ==
  LET nd   == NDim(e.fn)
      X    == T(e.x)
      axes == AxesOf(e, nd, Rank(X))
      J    == LevelOf(e, SizesOn(X, axes), FLen(e.w))
  IN IF e.fn = "swt" THEN SwtN(X, e.w, axes[1], J, 1)
     ELSE WaveDecN(X, e.w, e.mode, axes, J)

\* the first non-empty string of a sequence, "" if there is none
FirstOf(bs) == LET B == {i \in 1..Len(bs) : bs[i] # ""}
               IN IF B = {} THEN "" ELSE bs[Min(B)]

BandsVerdict(o, D, nd, ikind, dt) ==
  IF o.kind # ikind THEN "detail container"
  ELSE IF ~WellKeyed(o, nd) THEN "detail keys"
  ELSE IF \E i \in 1..Len(o.b) : o.b[i].v.dt # dt THEN "detail dtype"
  ELSE LET b == Bands(o)
       IN IF \E k \in DOMAIN D : b[k].s # D[k].s THEN "detail shape"
          ELSE IF \E k \in DOMAIN D : b[k].d # D[k].d THEN "detail value"
          ELSE ""

CoeffVerdict(o, W, nd, okind, ikind, dt) ==
  IF o.st # "ok" THEN "refused: " \o o.exc
  ELSE IF o.kind # okind THEN "container"
  ELSE IF Len(o.ds) # Len(W) - 1 THEN "number of levels"
  ELSE IF o.a.dt # dt THEN "approximation dtype"
  ELSE IF o.a.s # W[1].s THEN "approximation shape"
  ELSE IF o.a.d # W[1].d THEN "approximation value"
  ELSE FirstOf([j \in 1..Len(o.ds) |-> BandsVerdict(o.ds[j], W[j + 1], nd, ikind, dt)])

DecVerdict(e) ==
  LET nd   == NDim(e.fn)
      axes == AxesOf(e, nd, Len(e.x.s))
      ns   == SizesOn(e.x, axes)
      J    == LevelOf(e, ns, FLen(e.w))
  IN IF /\ e.out.st = "err" /\ e.fn # "swt"
        /\ MayRefuse(e.mode, ns, FLen(e.w), J) THEN ""
     ELSE CoeffVerdict(e.out, Analysis(e), nd, OuterKind(e.fn), InnerKind(e.fn), e.dt)

\* --------------------------------------------------------------- synthesis
DsOf(c) == [j \in 1..Len(c.ds) |-> Bands(c.ds[j])]

\* Sizes fit: every band of a level has the size of the approximation reaching
\* it, which may be one longer than the next details.
RECURSIVE Fits(_, _, _)
Fits(n, ms, L) ==
  IF ms = <<>> THEN TRUE
  ELSE /\ (n = Head(ms) \/ n = Head(ms) + 1)
       /\ RecLen(Head(ms), L) >= 1
       /\ Fits(RecLen(Head(ms), L), Tail(ms), L)

Compatible(c, axes, L) ==
  \A i \in 1..Len(axes) :
     LET ms == [j \in 1..Len(c.ds) |-> c.ds[j].b[1].v.s[axes[i]]]
         n  == c.a.s[axes[i]]
     IN /\ \A j \in 1..Len(c.ds) : \A b \in 1..Len(c.ds[j].b) : c.ds[j].b[b].v.s[axes[i]] = ms[j]
        /\ ms # <<>> => n = ms[1]
        /\ Fits(n, ms, L)

ISwtCompatible(c, ax) == \A j \in 1..Len(c.ds) : c.ds[j].b[1].v.s[ax] = c.a.s[ax]

Synthesis(fn, c, w, axes) ==
  IF fn = "iswt" THEN ISwtN(T(c.a), [j \in 1..Len(c.ds) |-> Bands(c.ds[j])[<<"d">>]], w, axes[1])
  ELSE WaveRecN(T(c.a), DsOf(c), w, axes)

TensorVerdict(o, Z, dt) ==
  IF o.st # "ok" THEN "refused: " \o o.exc
  ELSE IF o.v.dt # dt THEN "dtype"
  ELSE IF o.v.s # Z.s THEN "shape"
  ELSE IF o.v.d # Z.d THEN "value"
  ELSE ""

RecVerdict(e) ==
  LET nd   == NDim(e.fn)
      axes == AxesOf(e, nd, Len(e.c.a.s))
      ok   == IF e.fn = "iswt" THEN ISwtCompatible(e.c, axes[1])
              ELSE Compatible(e.c, axes, Len(e.w.rl))
      \* the separable synthesis crops larger approximations without complaint;
      \* nothing is promised for it
  IN IF ~ok THEN (IF e.out.st = "ok" /\ ~IsFs(e.fn) THEN "incompatible coefficients accepted" ELSE "")
     ELSE TensorVerdict(e.out, Synthesis(e.fn, e.c, e.w, axes), e.dt)

\* -------------------------------------------------- analysis then synthesis
\* Polynomial product of two tap sequences, coefficient n (0-based).
PolyCoef(f, g, n) == SumOver({t \in 1..Len(f) : n - t + 2 >= 1 /\ n - t + 2 <= Len(g)},
                             LAMBDA t : f[t] * g[n - t + 2])
Alt(f) == [t \in 1..Len(f) |-> IF t % 2 = 1 THEN f[t] ELSE Neg(f[t])]

\* perfect reconstruction:  DL RL + DH RH = 2 z^(L-1),  no aliasing
PRBank(w) ==
  LET L == FLen(w)
  IN \A n \in 0..(2 * L - 2) :
       /\ Add(PolyCoef(w.dl, w.rl, n), PolyCoef(w.dh, w.rh, n)) = (IF n = L - 1 THEN 2 ELSE 0)
       /\ Add(PolyCoef(Alt(w.dl), w.rl, n), PolyCoef(Alt(w.dh), w.rh, n)) = 0

\* Does Z restore X, up to one extra trailing sample on transformed odd axes?
RestoreVerdict(o, X, axes, extra, dt) ==
  IF o.st # "ok" THEN "refused: " \o o.exc
  ELSE IF o.v.dt # dt THEN "dtype"
  ELSE IF Len(o.v.s) # Rank(X) THEN "rank"
  ELSE IF \E a \in 1..Rank(X) :
            /\ o.v.s[a] # X.s[a]
            /\ ~(extra /\ o.v.s[a] = X.s[a] + 1 /\ X.s[a] % 2 = 1 /\ \E i \in 1..Len(axes) : axes[i] = a)
       THEN "restored shape"
  ELSE IF CropAxes(T(o.v), axes, SizesOn(X, axes)).d # X.d THEN "restored value"
  ELSE ""

DecFn(fn) == CASE fn = "waverec" -> "wavedec" [] fn = "waverec2" -> "wavedec2"
               [] fn = "waverec3" -> "wavedec3" [] fn = "fswaverec2" -> "fswavedec2"
               [] fn = "fswaverec3" -> "fswavedec3" [] fn = "iswt" -> "swt" [] OTHER -> fn

RtVerdict(e) ==
  LET nd   == NDim(e.fn)
      axes == AxesOf(e, nd, Len(e.x.s))
      ns   == SizesOn(e.x, axes)
      J    == LevelOf(e, ns, FLen(e.w))
  IN IF ~PRBank(e.w) THEN "HARNESS: no perfect reconstruction bank"
     ELSE IF e.fn # "swt" /\ e.out.st = "err" /\ MayRefuse(e.mode, ns, FLen(e.w), J) THEN ""
     ELSE RestoreVerdict(e.out, T(e.x), axes, e.fn # "swt" /\ J > 0, e.dt)

\* ------------------------------------------------------------ default level
IsMatrix(fn) == fn \in {"matrix1", "matrix2", "matrix2s", "matrix3"}
LvlDim(fn) == CASE fn \in {"matrix1", "packet1"} -> 1
                [] fn \in {"matrix2", "matrix2s", "packet2"} -> 2
                [] fn = "matrix3" -> 3
                [] OTHER -> NDim(fn)

\* out.n levels were used, out.g / out.h are the digests of the results without a
\* level and with that level given explicitly (empty where level 0 cannot be given)
LvlVerdict(e) ==
  LET X == [s |-> e.s, d |-> <<>>]
      J == DefaultLevel(e.fn, SizesOn(X, AxesOf(e, LvlDim(e.fn), Len(e.s))), e.L)
  IN IF e.out.st # "ok" THEN "refused: " \o e.out.exc
     ELSE IF e.out.n # J THEN "default level"
     ELSE IF e.out.h # <<>> /\ e.out.g # e.out.h THEN "explicit level differs"
     ELSE IF e.out.h = <<>> /\ ~(IsMatrix(e.fn) /\ J = 0) THEN "HARNESS: no explicit result"
     ELSE ""

=============================================================================
