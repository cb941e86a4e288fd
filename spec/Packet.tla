------------------------------- MODULE Packet -------------------------------
(***************************************************************************)
(* Wavelet packet trees as state machines.                                 *)
(*                                                                         *)
(* A tree object is a record                                               *)
(*   nd        1 or 2 transformed axes    w      filter bank               *)
(*   mode      boundary mode              axes   as passed (<<>> = none)   *)
(*   sep       separable 2-D transform    sw     naming deviation, below   *)
(*   maxlevel  -1 before any transform    nodes  path -> tensor            *)
(*   dead      TRUE after a failure that leaves the tree unspecified       *)
(* Paths are sequences of letters.                                         *)
(***************************************************************************)
EXTENDS Calls

Letters(nd) == IF nd = 1 THEN {"a", "d"} ELSE {"a", "h", "v", "d"}

\* The band a letter stands for.  In 2-D, horizontal is high pass along the
\* first transformed axis.  Known deviation (finding D4): the separable trees
\* have horizontal and vertical exchanged; sw = TRUE models that.
BandOf(o, c) ==
  IF o.nd = 1 THEN <<c>>
  ELSE CASE c = "a" -> <<"a", "a">>
         [] c = "h" -> IF o.sw THEN <<"a", "d">> ELSE <<"d", "a">>
         [] c = "v" -> IF o.sw THEN <<"d", "a">> ELSE <<"a", "d">>
         [] c = "d" -> <<"d", "d">>

TreeAxes(o, X) == NormAxes(IF o.axes = <<>> THEN DefaultAxes(o.nd) ELSE o.axes, Rank(X))

\* two-tap boundary filters need no boundary: same as zero padding
StepMode(o) == IF o.mode = "boundary" THEN "zero" ELSE o.mode

Children(o, X) ==
  LET b == DecAll(X, o.w, StepMode(o), TreeAxes(o, X))
  IN [c \in Letters(o.nd) |-> b[BandOf(o, c)]]

\* one-step synthesis of four (two) children
Join(o, ch) ==
  LET axes == TreeAxes(o, ch["a"])
  IN RecAll(TLCEval([k \in Keys(o.nd) |-> ch[CHOOSE c \in Letters(o.nd) : BandOf(o, c) = k]]), o.w, axes)

ChildrenOfPath(o, p) == {Append(p, c) : c \in Letters(o.nd)}

\* nodes after expanding p
ExpandNodes(o, nodes, p) ==
  LET ch == Children(o, nodes[p])
  IN [q \in ChildrenOfPath(o, p) |-> ch[q[Len(q)]]] @@ nodes

\* the boundary transform has no level for inputs shorter than the filter
Refuses(o, X) ==
  \/ o.mode = "boundary" /\ \E i \in 1..o.nd : SizesOn(X, TreeAxes(o, X))[i] < FLen(o.w)
  \/ MayRefuse(StepMode(o), SizesOn(X, TreeAxes(o, X)), FLen(o.w), 1)

\* the longest present proper prefix of p, as its length; -1 if there is none
PrefixLen(o, p) ==
  LET S == {i \in 0..(Len(p) - 1) : SubSeq(p, 1, i) \in DOMAIN o.nodes}
  IN IF S = {} THEN -1 ELSE Max(S)

RECURSIVE ExpandAlong(_, _, _)
ExpandAlong(o, p, i) ==
  IF i = Len(p) THEN o
  ELSE ExpandAlong([o EXCEPT !.nodes = ExpandNodes(o, o.nodes, SubSeq(p, 1, i))], p, i + 1)

\* reading a node: [st |-> "ok" or exception, o |-> next state]
Read(o, p) ==
  IF o.maxlevel = -1 THEN [st |-> "ValueError", o |-> o]
  ELSE IF p \in DOMAIN o.nodes THEN [st |-> "ok", o |-> o]
  ELSE IF Len(p) > o.maxlevel THEN [st |-> "KeyError", o |-> o]
  ELSE LET i == PrefixLen(o, p)
       IN IF i = -1 \/ \E k \in (i + 1)..Len(p) : p[k] \notin Letters(o.nd)
          THEN [st |-> "ValueError", o |-> o]
          ELSE [st |-> "ok", o |-> ExpandAlong(o, p, i)]

\* reading a sequence of nodes, stopping at the first failure
RECURSIVE ReadAll(_, _)
ReadAll(o, ps) ==
  IF ps = <<>> THEN [st |-> "ok", o |-> o]
  ELSE LET r == Read(o, Head(ps))
       IN IF r.st # "ok" THEN r ELSE ReadAll(r.o, Tail(ps))

RECURSIVE PathsAt(_, _)
PathsAt(o, level) ==
  IF level = 0 THEN {<<>>}
  ELSE {Append(p, c) : p \in PathsAt(o, level - 1), c \in Letters(o.nd)}

CropLike(R, X) == CropAxes(R, [i \in 1..Rank(R) |-> i], [i \in 1..Rank(R) |-> Min2(R.s[i], X.s[i])])

\* Reconstruction of all levels below `level' (exclusive).  A missing inner
\* node is first computed from above: only its shape matters.
RECURSIVE Rebuild(_, _)
Rebuild(o, level) ==
  IF level < 0 THEN [st |-> "ok", o |-> o]
  ELSE LET r == ReadAll(o, SetToSeq(PathsAt(o, level)))
           N == r.o.nodes
       IN IF r.st # "ok" THEN r
          ELSE IF \E p \in PathsAt(o, level) : \E q \in ChildrenOfPath(o, p) : q \notin DOMAIN N
          THEN [st |-> "KeyError", o |-> o]
          ELSE LET new == [p \in PathsAt(o, level) |->
                             LET R == Join(o, [c \in Letters(o.nd) |-> N[Append(p, c)]])
                             IN IF level = 0 THEN R ELSE CropLike(R, N[p])]
               IN Rebuild([r.o EXCEPT !.nodes = TLCEval(new @@ N)], level - 1)

TreeMaxLevel(o, X, given) ==
  IF given >= 0 THEN given ELSE MaxLevelN(SizesOn(X, TreeAxes(o, X)), FLen(o.w))

Planted(o, X, given) ==
  [o EXCEPT !.nodes = [p \in {<<>>} |-> X], !.maxlevel = TreeMaxLevel(o, X, given)]

Blank(e, sw) ==
  [nd |-> e.nd, w |-> e.w, mode |-> e.mode, axes |-> e.axes, sep |-> e.sep, sw |-> sw,
   maxlevel |-> -1, nodes |-> <<>>, dt |-> e.dt, dead |-> FALSE]

\* Would some step needed for reading these paths be refused by torch?
RECURSIVE AnyRefusal(_, _, _)
AnyRefusal(o, p, i) ==
  IF i >= Len(p) \/ SubSeq(p, 1, i) \notin DOMAIN o.nodes THEN FALSE
  ELSE IF Refuses(o, o.nodes[SubSeq(p, 1, i)]) THEN TRUE
  ELSE AnyRefusal([o EXCEPT !.nodes = ExpandNodes(o, o.nodes, SubSeq(p, 1, i))], p, i + 1)

\* --------------------------------------------------------------- the events
\* Outcome of one call on candidate state o: [v |-> verdict, o |-> next state].
Same(o, t) == t.s = o.s /\ t.d = o.d

KeysOK(e, o) == {e.keys[i] : i \in 1..Len(e.keys)} = DOMAIN o.nodes /\ Len(e.keys) = Cardinality(DOMAIN o.nodes)

Judge(e, r, value(_)) ==
  IF r.st # "ok"
  THEN [v |-> IF e.out.st = "ok" THEN "accepted instead of " \o r.st
              ELSE IF e.out.exc # r.st THEN "raised " \o e.out.exc \o " instead of " \o r.st
              ELSE "",
        \* what a failing call leaves behind is not promised
        o |-> IF KeysOK(e, r.o) THEN r.o ELSE [r.o EXCEPT !.dead = TRUE]]
  ELSE [v |-> IF e.out.st # "ok" THEN "refused: " \o e.out.exc
              ELSE IF ~KeysOK(e, r.o) THEN "stored nodes"
              ELSE value(r.o), o |-> r.o]

NodeVerdict(e, o, p) ==
  IF e.out.v.dt # o.dt THEN "node dtype"
  ELSE IF e.out.v.s # o.nodes[p].s THEN "node shape"
  ELSE IF e.out.v.d # o.nodes[p].d THEN "node value"
  ELSE ""

\* a read that torch may refuse because of a too wide padding
ReadRefusal(e, o) ==
  /\ e.out.st = "err"
  /\ o.maxlevel >= 0
  /\ LET i == PrefixLen(o, e.p)
     IN i >= 0 /\ Len(e.p) <= o.maxlevel /\ AnyRefusal(o, e.p, i)

RECURSIVE InitRefusal(_, _)
InitRefusal(o, ps) ==
  IF ps = <<>> THEN FALSE
  ELSE LET p == Head(ps)
           r == Read(o, p)
       IN IF r.st # "ok" THEN FALSE
          ELSE IF p \notin DOMAIN o.nodes /\ AnyRefusal(o, p, PrefixLen(o, p)) THEN TRUE
          ELSE InitRefusal(r.o, Tail(ps))

PkStep(e, o) ==
  CASE e.do = "transform" ->
         LET r == [st |-> "ok", o |-> Planted(o, T(e.x), e.maxlevel)]
         IN Judge(e, r, LAMBDA q : IF e.out.b # r.o.maxlevel THEN "maximum level" ELSE "")
    [] e.do = "get" ->
         IF ReadRefusal(e, o) THEN [v |-> "", o |-> [o EXCEPT !.dead = TRUE]]
         ELSE Judge(e, Read(o, e.p), LAMBDA q : NodeVerdict(e, q, e.p))
    [] e.do = "set" ->
         Judge(e, [st |-> "ok", o |-> [o EXCEPT !.nodes = [p \in {e.p} |-> T(e.x)] @@ o.nodes]],
               LAMBDA q : "")
    [] e.do = "del" ->
         Judge(e, IF e.p \in DOMAIN o.nodes
                  THEN [st |-> "ok", o |-> [o EXCEPT !.nodes = [p \in (DOMAIN o.nodes) \ {e.p} |-> o.nodes[p]]]]
                  ELSE [st |-> "KeyError", o |-> o],
               LAMBDA q : "")
    [] e.do = "has" ->
         Judge(e, [st |-> "ok", o |-> o],
               LAMBDA q : IF e.out.b = (e.p \in DOMAIN o.nodes) THEN "" ELSE "membership")
    \* get(path): the stored node or nothing
    [] e.do = "peek" ->
         Judge(e, [st |-> "ok", o |-> o],
               LAMBDA q : IF e.out.b # (e.p \in DOMAIN o.nodes) THEN "get of a missing node"
                          ELSE IF e.out.b THEN NodeVerdict(e, q, e.p) ELSE "")
    [] e.do = "pop" ->
         LET r == Judge([e EXCEPT !.keys = SetToSeq(DOMAIN o.nodes)], [st |-> "ok", o |-> o], LAMBDA q : NodeVerdict(e, q, e.p))
             n == [o EXCEPT !.nodes = [p \in (DOMAIN o.nodes) \ {e.p} |-> o.nodes[p]]]
         IN [v |-> IF r.v # "" THEN r.v ELSE IF ~KeysOK(e, n) THEN "stored nodes" ELSE "", o |-> n]
    [] e.do = "update" ->
         Judge(e, [st |-> "ok", o |-> [o EXCEPT !.nodes =
                     [p \in {e.ps[i] : i \in 1..Len(e.ps)} |->
                        T(e.xs[CHOOSE i \in 1..Len(e.ps) : e.ps[i] = p])] @@ o.nodes]],
               LAMBDA q : "")
    [] e.do = "init" ->
         LET r == ReadAll(o, e.ps)
         IN IF r.st # "ok" /\ e.out.st = "err" /\ e.out.exc = r.st
            THEN [v |-> "", o |-> [o EXCEPT !.dead = TRUE]]
            ELSE IF e.out.st = "err" /\ InitRefusal(o, e.ps)
            THEN [v |-> "", o |-> [o EXCEPT !.dead = TRUE]]
            ELSE Judge(e, r, LAMBDA q : "")
    [] e.do = "rec" ->
         IF o.maxlevel = -1
         THEN Judge(e, [st |-> "ValueError", o |-> o], LAMBDA q : "")
         ELSE LET r == Rebuild(o, o.maxlevel - 1)
              IN IF r.st # "ok"
                 THEN [v |-> IF e.out.st = "ok" THEN "accepted instead of " \o r.st
                             ELSE IF e.out.exc # r.st THEN "raised " \o e.out.exc \o " instead of " \o r.st
                             ELSE "",
                       o |-> [o EXCEPT !.dead = TRUE]]
                 ELSE Judge(e, r, LAMBDA q : IF <<>> \in DOMAIN q.nodes THEN NodeVerdict(e, q, <<>>) ELSE "")

\* e.do = "new": the set of candidate initial states
Candidates(e) ==
  LET B == IF e.nd = 2 /\ e.sep THEN {FALSE, TRUE} ELSE {FALSE}
  IN {IF e.hasdata THEN Planted(Blank(e, sw), T(e.x), e.maxlevel) ELSE Blank(e, sw) : sw \in B}

NewVerdict(e, C) ==
  IF e.out.st # "ok" THEN "refused: " \o e.out.exc
  ELSE LET o == CHOOSE o \in C : TRUE
       IN IF e.out.b # o.maxlevel THEN "maximum level"
          ELSE IF ~KeysOK(e, o) THEN "stored nodes" ELSE ""

\* One call against a set of candidate states.
PkCall(e, C) ==
  LET R  == {PkStep(e, o) : o \in {o \in C : ~o.dead}}
      ok == {r \in R : r.v = ""}
  IN IF R = {} THEN [v |-> "", C |-> C]
     ELSE IF ok = {} THEN [v |-> (CHOOSE r \in R : TRUE).v, C |-> {r.o : r \in R}]
     ELSE [v |-> IF (\A r \in ok : r.o.sw) /\ \E o \in C : ~o.sw THEN "KNOWN D4" ELSE "",
           C |-> {r.o : r \in ok}]

=============================================================================
