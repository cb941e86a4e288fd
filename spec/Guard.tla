------------------------------- MODULE Guard --------------------------------
(***************************************************************************)
(* The argument contract (C19).  A call is described by its arguments: the *)
(* dtype and shape of every tensor, the structure of the coefficients, the *)
(* boundary mode, the axes, the orthogonalisation.  Defects(e) is the set  *)
(* of rules the arguments break; a call is accepted iff the set is empty.  *)
(*                                                                         *)
(* e.call  "dec", "rec" (coefficients e.c) or "pk" (packet tree)           *)
(* e.fn, e.nd, e.L, e.mode, e.J (levels asked for), e.orth                 *)
(* e.axes  axes as passed; e.axes0 = TRUE if they were not passed          *)
(* e.x     description [t, dt, s] of the signal                            *)
(* e.c     sequence of [kind, ts, ks]: kind tensor, tuple, dict or other   *)
(* e.out   [st, exc, value, at, dts]: value = the exception is a           *)
(*         ValueError; at = "new" if the object could not be constructed   *)
(***************************************************************************)
EXTENDS Calls

GoodDtypes == {"float32", "float64"}
GoodModes == {"zero", "constant", "symmetric", "reflect", "periodic"}
GoodOrth == {"qr", "gramschmidt"}

\* defects that must be reported as a ValueError
Value == {"dtype", "mixed", "mode", "axes", "dims"}

GMatrix(e) == e.fn \in {"matrix1", "matrix2", "matrix2s", "matrix3"}
GAxes(e) == IF e.axes0 THEN [i \in 1..e.nd |-> i - e.nd - 1] ELSE e.axes
Norm(a, rank) == IF a < 0 THEN a + rank ELSE a

\* defects of the axes argument for tensors of this rank
AxesDefects(e, rank) ==
  LET a == GAxes(e)
  IN IF Len(a) # e.nd THEN {"axes"}
     ELSE IF \E i, j \in 1..Len(a) : i # j /\ Norm(a[i], rank) = Norm(a[j], rank) THEN {"axes"}
     \* axes that are given explicitly cannot all be in range then
     ELSE IF rank < e.nd THEN (IF a = [i \in 1..e.nd |-> i - e.nd - 1] THEN {"dims"} ELSE {"range"})
     ELSE IF \E i \in 1..Len(a) : Norm(a[i], rank) \notin 0..(rank - 1) THEN {"range"}
     ELSE {}

ArgDefects(e) ==
  (IF e.mode # "default" /\ e.mode \notin GoodModes \cup (IF e.call = "pk" THEN {"boundary"} ELSE {}) THEN {"mode"} ELSE {})
  \cup (IF e.orth \notin GoodOrth THEN {"orth"} ELSE {})
  \* synthesis filters of another length than the analysis filters
  \cup (IF e.uneven THEN {"filters"} ELSE {})

SignalDefects(e) ==
  IF e.x.t # "tensor" THEN {"structure"}
  ELSE (IF e.x.dt \notin GoodDtypes THEN {"dtype"} ELSE {}) \cup AxesDefects(e, Len(e.x.s))

\* ------------------------------------------------------------ coefficients
DetailNames(nd) == IF nd = 2 THEN {"ad", "da", "dd"} ELSE {"aad", "ada", "add", "daa", "dad", "dda", "ddd"}

GoodEntry(e, d) ==
  /\ \A i \in 1..Len(d.ts) : d.ts[i].t = "tensor"
  /\ CASE e.nd = 1 -> d.kind = "tensor"
       [] e.fn \in {"wavedec2", "matrix2", "matrix2s"} -> d.kind = "tuple" /\ Len(d.ts) = 3
       [] OTHER -> d.kind = "dict" /\ Len(d.ks) = Cardinality(DetailNames(e.nd))
                   /\ {d.ks[i] : i \in 1..Len(d.ks)} = DetailNames(e.nd)

Structure(e) ==
  /\ Len(e.c) >= 1
  /\ e.c[1].kind = "tensor" /\ e.c[1].ts[1].t = "tensor"
  /\ \A l \in 2..Len(e.c) : GoodEntry(e, e.c[l])

Tensors(e) == UNION {{e.c[l].ts[i] : i \in 1..Len(e.c[l].ts)} : l \in 1..Len(e.c)}

\* sizes of the next level that fit n samples of this one
Next1(e, n) ==
  CASE e.fn = "swt" -> {n}
    [] GMatrix(e) -> {2 * n, 2 * n - 1}
    [] OTHER -> {2 * n + 2 - e.L, 2 * n + 1 - e.L}

ShapesFit(e) ==
  LET s0 == e.c[1].ts[1].s
      rank == Len(s0)
      a  == GAxes(e)
      tr == {Norm(a[i], rank) + 1 : i \in 1..Len(a)}
      S(l) == e.c[l].ts[1].s
  IN \A l \in 2..Len(e.c) :
       /\ \A i \in 1..Len(e.c[l].ts) : Len(e.c[l].ts[i].s) = rank
       /\ \A i \in 1..Len(e.c[l].ts) : e.c[l].ts[i].s = S(l)
       /\ \A k \in 1..rank :
            IF k \notin tr THEN S(l)[k] = s0[k]
            ELSE IF l = 2 THEN S(l)[k] = s0[k]
            ELSE S(l)[k] \in Next1(e, S(l - 1)[k])

CoeffDefects(e) ==
  IF ~Structure(e) THEN {"structure"}
  ELSE LET d0 == e.c[1].ts[1]
           ax == AxesDefects(e, Len(d0.s))
       IN (IF d0.dt \notin GoodDtypes THEN {"dtype"} ELSE {})
          \cup (IF \E t \in Tensors(e) : t.dt # d0.dt THEN {"mixed"} ELSE {})
          \cup ax
          \cup (IF ax = {} /\ ~ShapesFit(e) THEN {"shape"} ELSE {})

Defects(e) == ArgDefects(e) \cup (IF e.call = "rec" THEN CoeffDefects(e) ELSE SignalDefects(e))

InputDtype(e) == IF e.call = "rec" THEN e.c[1].ts[1].dt ELSE e.x.dt

GuardVerdict(e) ==
  LET D == Defects(e)
      name == CHOOSE d \in D : TRUE
      o == e.out
  IN IF D = {}
     THEN IF o.st = "err" THEN (IF e.free THEN "" ELSE "refused: " \o o.exc)
          ELSE IF \E i \in 1..Len(o.dts) : o.dts[i] # InputDtype(e) THEN "dtype of the result"
          ELSE ""
     ELSE IF "orth" \in D
     THEN IF o.at = "new" THEN "" ELSE "unsupported orthogonalisation accepted at construction"
     ELSE IF "filters" \in D
     THEN IF o.at = "new" /\ o.value THEN "" ELSE "filters of unequal lengths accepted at construction"
     ELSE IF o.st # "err" THEN "accepted: wrong " \o name
     \* a packet tree may notice a missing dimension in other ways
     ELSE IF D \subseteq (IF e.call = "pk" THEN Value \ {"dims"} ELSE Value) /\ ~o.value THEN "not a ValueError: wrong " \o name
     ELSE ""
=============================================================================
