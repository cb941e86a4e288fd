------------------------------ MODULE Cascade ------------------------------
(***************************************************************************)
(* Design-level model of the discrete transforms: the cascade down the     *)
(* levels and up again, run on all unit impulses at once (the data is the  *)
(* identity matrix, its first axis the batch), so that one behaviour       *)
(* covers all signals of its size.  The banks are random perfect           *)
(* reconstruction banks supplied by the harness.                           *)
(*                                                                         *)
(*   Down  one analysis step, the details are pushed                       *)
(*   Turn  all levels are done                                             *)
(*   Up    one synthesis step with the details popped                      *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

CONSTANTS Kinds,       \* subset of {"dwt", "swt"}
          MaxN,        \* signal lengths of the 1-D cascade
          MaxN2,       \* side lengths of the 2-D cascade
          MaxJ

Banks == ndJsonDeserialize(IOEnv.BANKS)

VARIABLES kind,        \* "dwt" or "swt"
          mode, wi,    \* boundary mode, number of the bank
          sizes, J,    \* sizes of the transformed axes, levels
          A, ds,       \* current approximation, details coarsest first
          ghost,       \* approximations met on the way down, the one to restore first
          dir

vars == <<kind, mode, wi, sizes, J, A, ds, ghost, dir>>

w == Banks[wi]
L == FLen(w)
Axes == [i \in 1..Len(sizes) |-> i + 1]
Volume(s) == ProdRange(s, 1, Len(s))

Identity(s) ==
  LET n == Volume(s)
  IN [s |-> <<n>> \o s, d |-> [q \in 1..(n * n) |-> IF (q - 1) \div n = (q - 1) % n THEN 1 ELSE 0]]

Init ==
  /\ wi \in 1..Len(Banks)
  /\ kind \in Kinds
  /\ mode \in IF kind = "swt" THEN {"periodic"} ELSE Modes
  /\ sizes \in {<<n>> : n \in 1..MaxN} \cup
               IF kind = "swt" THEN {} ELSE {<<n, m>> : n \in 1..MaxN2, m \in 1..MaxN2}
  /\ J \in 0..(IF Len(sizes) = 2 THEN 2 ELSE MaxJ)
  /\ A = Identity(sizes)
  /\ ds = <<>> /\ ghost = <<A>> /\ dir = "down"

Bound == <<kind, mode, wi, sizes, J>>
Coarse == AllA(Len(sizes))

Down ==
  /\ dir = "down" /\ Len(ds) < J
  /\ IF kind = "swt"
     THEN LET r == SwtN(A, w, 2, 1, Pow2(Len(ds)))
          IN A' = r[1] /\ ds' = <<r[2]>> \o ds
     ELSE LET b == DecAll(A, w, mode, Axes)
          IN A' = b[Coarse] /\ ds' = <<[k \in DetailKeys(Len(sizes)) |-> b[k]]>> \o ds
  /\ ghost' = <<A'>> \o ghost
  /\ UNCHANGED <<kind, mode, wi, sizes, J, dir>>

Turn == dir = "down" /\ Len(ds) = J /\ dir' = "up" /\ UNCHANGED <<kind, mode, wi, sizes, J, A, ds, ghost>>

Up ==
  /\ dir = "up" /\ ds # <<>>
  /\ IF kind = "swt"
     THEN LET d == Pow2(Len(ds) - 1)
              G == ISwtOp(A.s[2], L, d)
          IN A' = TScale(Inv2, TAdd(ApplyAxis(G, w.rl, A, 2), ApplyAxis(G, w.rh, Head(ds)[<<"d">>], 2)))
     ELSE LET R == RecStep(A, Head(ds), w, Axes)
          IN A' = IF Len(ds) = 1 THEN R
                  ELSE CropAxes(R, Axes, SizesOn(AnyDetail(Head(Tail(ds))), Axes))
  /\ ds' = Tail(ds) /\ ghost' = Tail(ghost)
  /\ UNCHANGED <<kind, mode, wi, sizes, J, dir>>

Next == Down \/ Turn \/ Up
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- the theorems
\* halving law of the sizes
RECURSIVE After(_, _)
After(n, j) == IF j = 0 THEN n ELSE After(DecLen(n, L), j - 1)
Lengths ==
  dir = "down" =>
    \A i \in 1..Len(sizes) :
      A.s[i + 1] = (IF kind = "swt" THEN sizes[i] ELSE After(sizes[i], Len(ds)))

\* what the analysis produces is what the synthesis accepts
RECURSIVE AsMs(_, _)
AsMs(D, ax) == [j \in 1..Len(D) |-> AnyDetail(D[j]).s[ax]]
Accepts == (dir = "up" /\ kind = "dwt") => \A i \in 1..Len(Axes) : Fits(A.s[Axes[i]], AsMs(ds, Axes[i]), L)

\* every intermediate approximation comes back, with at most one more sample
\* at the end, and inner ones exactly
Restores ==
  dir = "up" =>
    IF ds # <<>> \/ J = 0 THEN A = Head(ghost)
    ELSE /\ \A i \in 1..Len(sizes) : A.s[i + 1] - sizes[i] = (IF kind = "dwt" THEN sizes[i] % 2 ELSE 0)
         /\ CropAxes(A, Axes, sizes) = Head(ghost)

\* the supplied banks are what they claim to be
Premise == PRBank(w)
=============================================================================
