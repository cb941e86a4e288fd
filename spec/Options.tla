------------------------------ MODULE Options -------------------------------
(***************************************************************************)
(* Optional arguments: leaving one out means its documented value, the     *)
(* deprecated names are aliases of the present ones, and the spelling of   *)
(* an argument (position or keyword, number or sequence, negative or       *)
(* non-negative axis, int-like numbers) does not change the call.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The documented defaults.  Values are written as text.
Convs1 == {"wavedec"}
Convs == {"wavedec", "wavedec2", "fswavedec2", "fswavedec3"}
Packets == {"WaveletPacket", "WaveletPacket2D"}
MatDec == {"MatrixWavedec", "MatrixWavedec2", "MatrixWavedec3"}
MatRec == {"MatrixWaverec", "MatrixWaverec2", "MatrixWaverec3"}
Boundary1 == {"construct_boundary_a", "construct_boundary_s"}
Boundary2 == {"construct_boundary_a2", "construct_boundary_s2"}
Dim1 == {"wavedec", "waverec", "swt", "iswt", "MatrixWavedec", "MatrixWaverec", "WaveletPacket"}
Dim2 == {"wavedec2", "waverec2", "fswavedec2", "fswaverec2", "MatrixWavedec2", "MatrixWaverec2", "WaveletPacket2D"}
Dim3 == {"wavedec3", "waverec3", "fswavedec3", "fswaverec3", "MatrixWavedec3", "MatrixWaverec3"}

Documented(fn, arg) ==
  CASE arg \in {"axis", "axes"} /\ fn \in Dim1 -> "-1"
    [] arg = "axes" /\ fn \in Dim2 -> "-2,-1"
    [] arg = "axes" /\ fn \in Dim3 -> "-3,-2,-1"
    [] arg = "mode" /\ fn \in Convs \cup Packets -> "reflect"
    [] arg = "mode" /\ fn = "wavedec3" -> "zero"
    [] arg = "level" -> "none"
    [] arg = "maxlevel" -> "none"
    [] arg = "orthogonalization" -> "qr"
    [] arg = "method" /\ fn = "orthogonalize" -> "qr"
    [] arg = "odd_coeff_padding_mode" -> "zero"
    [] arg = "separable" /\ fn \in MatDec \cup MatRec -> "true"
    [] arg = "separable" /\ fn = "WaveletPacket2D" -> "false"
    [] arg = "order" -> "freq"
    [] arg = "sampling_period" -> "1.0"
    [] arg = "precision" -> "12"
    [] arg = "dtype" /\ fn \in Boundary1 \cup Boundary2 -> "float64"
    [] arg = "device" /\ fn \in Boundary1 -> "cpu"
    [] arg = "mode" /\ fn \in {"construct_conv_matrix", "construct_conv2d_matrix", "construct_strided_conv_matrix"} -> "valid"
    [] arg = "mode" /\ fn = "construct_strided_conv2d_matrix" -> "full"
    [] arg = "stride" -> "2"
    [] arg = "fully_sparse" -> "true"
    [] OTHER -> "undocumented"

\* The deprecated names.
Alias(fn) ==
  CASE fn \in MatDec \cup MatRec \cup Boundary1 \cup Boundary2 -> "boundary"
    [] fn \in Packets -> "boundary_orthogonalization"

Same(a, b, tol) == IF b.st # "ok" THEN a.st # "ok" ELSE a.st = "ok" /\ a.err >= 0 /\ a.err <= tol

\* e.omit: the call without the argument; e.alts: the call with each value, err the
\* deviation from e.omit (-1: other structure).
DefaultVerdict(e) ==
  LET d == Documented(e.fn, e.arg)
      I == {i \in 1..Len(e.alts) : e.alts[i].v = d}
  IN IF d = "undocumented" \/ Cardinality(I) # 1 THEN "HARNESS: " \o e.fn \o " " \o e.arg
     ELSE LET a == e.alts[CHOOSE i \in I : TRUE]
          IN IF a.st # e.omit.st THEN "default refused: " \o e.arg
             ELSE IF Same(a, e.omit, e.tol) THEN "" ELSE "default of " \o e.arg \o " is not " \o d

\* e.out: the call by the deprecated name, compared with the present name; e.warn:
\* whether it warned; e.both: the call with both names.
AliasVerdict(e) ==
  IF e.alias # Alias(e.fn) THEN "HARNESS: alias"
  ELSE IF e.ref # "ok" THEN (IF e.out.st = "ok" THEN "deprecated name accepts more" ELSE "")
  ELSE IF e.out.st # "ok" THEN "deprecated name refused: " \o e.out.exc
  ELSE IF e.out.err < 0 \/ e.out.err > e.tol THEN "deprecated name means something else"
  ELSE IF e.warn # 1 THEN "no DeprecationWarning"
  ELSE IF e.both.st # "err" \/ e.both.exc # "TypeError" THEN "both names accepted"
  ELSE ""

SpellVerdict(e) ==
  LET bad == {i \in 1..Len(e.alts) : ~Same(e.alts[i], [st |-> e.ref], e.tol)}
  IN IF bad # {} THEN "spelling changes the result: " \o e.arg \o " " \o e.alts[CHOOSE i \in bad : TRUE].v
     ELSE ""

\* A traced function evaluated on another input, compared with the untraced call.
TracedVerdict(e) ==
  IF e.ref # "ok" THEN ""
  ELSE IF e.out.st # "ok" THEN "cannot be traced: " \o e.out.exc
  ELSE IF e.out.err < 0 \/ e.out.err > e.tol THEN "traced function differs" ELSE ""

OptVerdict(e) ==
  CASE e.k = "default" -> DefaultVerdict(e)
    [] e.k = "alias" -> AliasVerdict(e)
    [] e.k = "spell" -> SpellVerdict(e)
    [] e.k = "jit" -> TracedVerdict(e)

=============================================================================
