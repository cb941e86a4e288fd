----------------------------- MODULE PtwtTrace ------------------------------
(***************************************************************************)
(* Validation of recorded executions.  The trace (one JSON object per      *)
(* line) is consumed one call per step; a call the specification does not  *)
(* allow is reported with the violated clause and the rest of the trace is *)
(* still checked.                                                          *)
(***************************************************************************)
EXTENDS Packet, Matrix, Order, Sparse, Loss, Boundary, History, Forms, Grad, Pure, Guard, Cwt, Options, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line of the trace
          nbad,   \* number of rejected calls so far
          heap    \* objects of the current history: name -> candidate states

vars == <<l, nbad, heap>>

\* calls without state
Verdict(e) ==
  CASE e.op = "dec" -> DecVerdict(e)
    [] e.op = "rec" -> RecVerdict(e)
    [] e.op = "rt"  -> RtVerdict(e)
    [] e.op = "order" -> OrderVerdict(e)
    [] e.op = "mdec" -> MDecVerdict(e)
    [] e.op = "mrec" -> MRecVerdict(e)
    [] e.op = "lvl"  -> LvlVerdict(e)
    [] e.op = "sp"   -> SparseVerdict(e)
    [] e.op = "loss" -> LossGradVerdict(e)
    [] e.op = "ax"   -> AxVerdict(e)
    [] e.op = "bmat" -> BmatVerdict(e)
    [] e.op = "mrt"  -> MrtVerdict(e)
    [] e.op = "mop"  -> MopVerdict(e)
    [] e.op = "mopi" -> MopiVerdict(e)
    [] e.op = "mcall" -> MCallVerdict(e)
    [] e.op = "again" -> TreeAgainVerdict(e)
    [] e.op = "forms" -> FormsVerdict(e)
    [] e.op = "f32"  -> SingleVerdict(e)
    [] e.op = "grad" -> GradVerdict(e)
    [] e.op = "adj"  -> AdjointVerdict(e)
    [] e.op = "func" -> FuncVerdict(e)
    [] e.op = "gd"   -> GuardVerdict(e)
    [] e.op = "cwt"  -> CwtVerdict(e)
    [] e.op = "cwtn" -> CwtNamedVerdict(e)
    [] e.op = "opt"  -> OptVerdict(e)
    [] e.op = "fail" -> e.why
    [] OTHER -> "HARNESS: unknown event"

Report(e, v) == IF v = "" THEN TRUE ELSE PrintT("@@BAD " \o ToString(<<e.id, v>>))

Init == l = 1 /\ nbad = 0 /\ heap = <<>>

Line == Trace[l]
Count(v) == nbad' = IF v = "" THEN nbad ELSE nbad + 1

Call ==
  /\ Line.op \notin {"pk", "reset", "pu"}
  /\ LET v == Verdict(Line) IN Report(Line, v) /\ Count(v)
  /\ UNCHANGED heap

\* a new history begins
Reset == Line.op = "reset" /\ heap' = <<>> /\ UNCHANGED nbad

PacketNew ==
  /\ Line.op = "pk" /\ Line.do = "new"
  /\ LET C == Candidates(Line)
         v == NewVerdict(Line, C)
     IN /\ Report(Line, v) /\ Count(v)
        /\ heap' = [o \in {Line.oid} |-> C] @@ heap

\* a copy of a tree has the nodes of the tree and a life of its own
PacketCopy ==
  /\ Line.op = "pk" /\ Line.do = "copy"
  /\ LET C == {o \in heap[Line.src] : ~o.dead}
         v == IF C = {} THEN "" ELSE NewVerdict(Line, C)
     IN /\ Report(Line, v) /\ Count(v)
        /\ heap' = [o \in {Line.oid} |-> heap[Line.src]] @@ heap

PacketCall ==
  /\ Line.op = "pk" /\ Line.do \notin {"new", "copy"}
  /\ LET r == PkCall(Line, heap[Line.oid])
     IN /\ Report(Line, r.v) /\ Count(r.v)
        /\ heap' = [heap EXCEPT ![Line.oid] = r.C]

\* the heap of a purity history is its state
PureCall ==
  /\ Line.op = "pu"
  /\ LET r == PureStep(Line, IF heap = <<>> THEN PureStart ELSE heap)
     IN /\ Report(Line, r.v) /\ Count(r.v)
        /\ heap' = r.h

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Call \/ Reset \/ PacketNew \/ PacketCopy \/ PacketCall \/ PureCall)
Spec == Init /\ [][Next]_vars

Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
