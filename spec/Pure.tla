-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* Purity of a history of calls.  The state is what the caller can see:    *)
(*   mem   name of a live object (argument or earlier result) -> snapshot  *)
(*   seen  call (function and argument names) -> snapshot of its result    *)
(* Every event carries snapshots of all objects that were live before the  *)
(* call (taken after it), so a call must leave mem as it was; a call that  *)
(* was made before must give the same result; a failed call changes        *)
(* nothing either.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, FiniteSets

Snap(e) == [n \in {e.snap[i].n : i \in 1..Len(e.snap)} |->
              e.snap[CHOOSE i \in 1..Len(e.snap) : e.snap[i].n = n].g]

PureStart == [mem |-> <<>>, seen |-> <<>>]

\* h: the state; result: verdict and next state
PureStep(e, h) ==
  LET S == Snap(e)
      changed == {n \in DOMAIN h.mem : n \notin DOMAIN S \/ S[n] # h.mem[n]}
      R == [o \in {e.res} |-> e.out.g]
      K == [k \in {e.key} |-> e.out.val]
      what == CHOOSE n \in changed : TRUE
  IN IF e.do = "start" THEN [v |-> "", h |-> [mem |-> S, seen |-> <<>>]]
     ELSE IF changed # {}
     THEN [v |-> "changed by the call: " \o what, h |-> [h EXCEPT !.mem = S @@ h.mem]]
     ELSE IF e.out.st = "err"
     THEN [v |-> IF e.mayfail THEN "" ELSE "refused: " \o e.out.exc, h |-> h]
     ELSE IF e.key \in DOMAIN h.seen /\ h.seen[e.key] # e.out.val
     THEN [v |-> "repeated call gives another result", h |-> [h EXCEPT !.mem = R @@ h.mem]]
     ELSE [v |-> "",
           h |-> [mem |-> R @@ h.mem, seen |-> IF e.key = "" THEN h.seen ELSE K @@ h.seen]]

=============================================================================
