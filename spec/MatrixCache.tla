----------------------------- MODULE MatrixCache ----------------------------
(***************************************************************************)
(* Design-level model of the objects that cache transform matrices (C09).  *)
(*                                                                         *)
(* An object is constructed with a level (explicit, or "auto").  A call    *)
(* has an abstract argument: a length class, a dtype, and possibly a       *)
(* defect that makes it fail before the cache is consulted ("early"),      *)
(* while the matrices are being built ("mid"), or after that ("late").     *)
(* The cache holds the key it was built for and the matrices, symbolically *)
(* the list of (length, dtype, level).                                     *)
(*                                                                         *)
(* The abstract calls mirror MatrixWavedec*.__call__: compare the key,     *)
(* rebuild if it changed, use the matrices.  Independence states that the  *)
(* matrices used are always those a fresh object would build.              *)
(*                                                                         *)
(* A good call is made in a mode: "plain" (its data may ask for gradients) *)
(* or "infer" (torch.inference_mode).  Matrices that were built as frozen  *)
(* tensors cannot serve a plain call.  An object may be copied at any      *)
(* time; the copy starts with the cache of the original and both live on   *)
(* independently (the history continues on either of them).                *)
(*                                                                         *)
(* Every history of the given length that ends with a good call is printed *)
(* as a script.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Emit,
          Careless,     \* TRUE: a failing build leaves its first matrices behind
          Freezing,     \* TRUE: the mode of the building call freezes the matrices
          Sharing       \* TRUE: a copy shares the matrices with its original

\* length classes: an odd length and its even neighbour share the evened
\* length; one shorter than the filter; one with more levels
Lens == {"short", "odd", "even", "long"}
FewLens == {"odd", "long"}
Evened(n) == IF n = "odd" THEN "even" ELSE n
MaxLev(n) == CASE n = "short" -> 0 [] n = "even" -> 1 [] n = "long" -> 2
Types == {"f32", "f64"}
FewTypes == {"f64"}
Levels == {0, 1, 2}      \* 0: determined from the input

Min(a, b) == IF a < b THEN a ELSE b
NumLevels(lv, n) == IF lv = 0 THEN MaxLev(n) ELSE Min(lv, MaxLev(n))
Mats(lv, n, t) == [j \in 1..NumLevels(lv, n) |-> <<n, t, j>>]

VARIABLES lv, key, mats, ice,   \* the object in use; ice: its matrices are frozen
          twin,                 \* the other one: <<>> or <<[key, mats, ice]>>
          used, h
vars == <<lv, key, mats, ice, twin, used, h>>

None == <<"none", "none">>
Init == lv \in Levels /\ key = None /\ mats = <<>> /\ ice = FALSE /\ twin = <<>> /\ used = <<>> /\ h = <<>>

Log(r) == /\ h' = Append(h, r)
          /\ IF Emit /\ r.bad = "no" /\ Len(h') = Depth
             THEN PrintT("@@SCRIPT " \o ToJson([level |-> lv, calls |-> h'])) ELSE TRUE

\* the cache after consulting it for (n, t) in mode m
Consult(n, t, m) ==
  LET k == <<n, t>>
  IN IF key # k \/ mats = <<>> THEN [key |-> k, mats |-> Mats(lv, n, t), ice |-> Freezing /\ m = "infer"]
     ELSE [key |-> key, mats |-> mats, ice |-> ice]

\* a copy that shares its matrices sees them replaced
Partner(ms) == IF Sharing /\ twin # <<>> THEN <<[twin[1] EXCEPT !.mats = ms]>> ELSE twin

Call(n, t, m) ==
  LET c == Consult(Evened(n), t, m)
  IN /\ key' = c.key /\ mats' = c.mats /\ ice' = c.ice
     /\ twin' = Partner(c.mats)
     /\ used' = <<Evened(n), t, c.mats, m, c.ice>>
     /\ Log([n |-> n, t |-> t, m |-> m, bad |-> "no"])

FailEarly(n, t) ==
  /\ UNCHANGED <<key, mats, ice, twin>> /\ used' = <<>>
  /\ Log([n |-> n, t |-> t, m |-> "plain", bad |-> "early"])

FailMid(n, t) ==
  /\ key' = <<Evened(n), t>> /\ used' = <<>>
  /\ mats' = IF Consult(Evened(n), t, "plain").mats = mats /\ key = <<Evened(n), t>> THEN mats
             ELSE IF Careless THEN SubSeq(Mats(lv, Evened(n), t), 1, Min(1, NumLevels(lv, Evened(n))))
             ELSE <<>>
  /\ ice' = (ice /\ mats' = mats)
  /\ twin' = Partner(mats')
  /\ Log([n |-> n, t |-> t, m |-> "plain", bad |-> "mid"])

FailLate(n, t) ==
  LET c == Consult(Evened(n), t, "plain")
  IN /\ key' = c.key /\ mats' = c.mats /\ ice' = c.ice /\ twin' = Partner(c.mats) /\ used' = <<>>
     /\ Log([n |-> n, t |-> t, m |-> "plain", bad |-> "late"])

\* copy the object and go on with the copy ("copy"), or go on with the other one ("swap")
Me == [key |-> key, mats |-> mats, ice |-> ice]
Copy == /\ twin = <<>> /\ h # <<>>
        /\ twin' = <<Me>> /\ used' = <<>> /\ UNCHANGED <<key, mats, ice>>
        /\ Log([n |-> "", t |-> "", m |-> "", bad |-> "copy"])
Swap == /\ twin # <<>>
        /\ twin' = <<Me>> /\ used' = <<>>
        /\ key' = twin[1].key /\ mats' = twin[1].mats /\ ice' = twin[1].ice
        /\ Log([n |-> "", t |-> "", m |-> "", bad |-> "swap"])

Next == /\ Len(h) < Depth
        /\ UNCHANGED lv
        /\ \/ Copy
           \/ Swap
           \/ \E n \in Lens, t \in Types :
                \/ \E m \in {"plain", "infer"} : Call(n, t, m)
                \/ FailEarly(n, t) \/ FailMid(n, t) \/ FailLate(n, t)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C09: what a call uses does not depend on the history
Independence == used # <<>> => used[3] = Mats(lv, used[1], used[2])

\* a call that may be differentiated never uses frozen matrices
Usable == used # <<>> /\ used[4] = "plain" => ~used[5]

\* the cached matrices belong to the key
CacheCoherent == key # None /\ mats # <<>> => mats = Mats(lv, key[1], key[2])
=============================================================================
