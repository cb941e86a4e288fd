------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* Calls in a history of cached objects (C09).  The specification of a     *)
(* call has no state: each call must be explained by its own arguments,    *)
(* and bit by bit by what a freshly constructed object returned for them.  *)
(***************************************************************************)
EXTENDS Matrix

MCallVerdict(e) ==
  LET v == IF e.inv THEN MRecVerdict(e) ELSE MDecVerdict(e)
  IN IF e.out.st # e.fresh.st THEN "outcome differs from a fresh object"
     ELSE IF e.out.st = "err" /\ e.out.exc # e.fresh.exc THEN "raised " \o e.out.exc \o ", a fresh object " \o e.fresh.exc
     ELSE IF e.out.st = "ok" /\ e.out.g # e.fresh.g THEN "result differs from a fresh object"
     ELSE v

\* a packet tree that was used before, against a fresh one for the same data
TreeAgainVerdict(e) ==
  IF e.out.st # e.fresh.st THEN "outcome differs from a fresh tree"
  ELSE IF e.out.st = "err" THEN (IF e.out.exc # e.fresh.exc THEN "exception differs from a fresh tree" ELSE "")
  ELSE IF e.out.ml # e.fresh.ml THEN "maximum level differs from a fresh tree"
  ELSE IF e.out.nodes # e.fresh.nodes THEN "nodes differ from a fresh tree"
  ELSE IF e.out.keys # e.fresh.keys THEN "stored nodes differ from a fresh tree"
  ELSE ""
=============================================================================
