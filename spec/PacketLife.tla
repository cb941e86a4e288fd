----------------------------- MODULE PacketLife -----------------------------
(***************************************************************************)
(* Design-level model of the packet tree life cycle.  Node values are      *)
(* symbolic terms <<source, suffix>>: the suffix letters applied to a      *)
(* source (a transformed root, an assigned value, a reconstruction).       *)
(* TLC explores it exhaustively; every transition is printed as a script   *)
(* of calls (shortest history) that the harness replays on real trees.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth,      \* longest history
          Emit        \* TRUE: print the scripts

Letter == {"a", "d"}
Paths == UNION {[1..k -> Letter] : k \in 0..2}
Bad == {<<"x">>, <<"a", "x">>, <<"x", "a">>, <<"a", "a", "a">>, <<"d", "a", "d">>}
Some == {<<>>, <<"a">>, <<"d">>, <<"a", "d">>, <<"d", "d">>}

VARIABLES nodes, ml, pure, h
vars == <<nodes, ml, pure, h>>
view == <<nodes, ml, pure>>

Init == nodes = <<>> /\ ml = -1 /\ pure = TRUE /\ h = <<>>

Has(N, p) == p \in DOMAIN N
Child(v, c) == <<v[1], Append(v[2], c)>>
Expand(N, p) == [q \in {Append(p, c) : c \in Letter} |-> Child(N[p], q[Len(q)])] @@ N

RECURSIVE Along(_, _, _)
Along(N, p, i) == IF i = Len(p) THEN N ELSE Along(Expand(N, SubSeq(p, 1, i)), p, i + 1)

Prefixes(N, p) == {i \in 0..(Len(p) - 1) : Has(N, SubSeq(p, 1, i))}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

\* [ok, nodes] of reading p
Read(N, m, p) ==
  IF m = -1 THEN [ok |-> FALSE, n |-> N]
  ELSE IF Has(N, p) THEN [ok |-> TRUE, n |-> N]
  ELSE IF Len(p) > m \/ Prefixes(N, p) = {} THEN [ok |-> FALSE, n |-> N]
  ELSE LET i == Max(Prefixes(N, p))
       IN IF \E k \in (i + 1)..Len(p) : p[k] \notin Letter THEN [ok |-> FALSE, n |-> N]
          ELSE [ok |-> TRUE, n |-> Along(N, p, i)]

RECURSIVE ReadAll(_, _, _)
ReadAll(N, m, ps) ==
  IF ps = <<>> THEN [ok |-> TRUE, n |-> N]
  ELSE LET r == Read(N, m, Head(ps)) IN IF r.ok THEN ReadAll(r.n, m, Tail(ps)) ELSE r

Level(k) == [1..k -> Letter]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})

RECURSIVE Rebuild(_, _)
Rebuild(N, k) ==
  IF k < 0 THEN [ok |-> TRUE, n |-> N]
  ELSE LET r == ReadAll(N, ml, ToSeq(Level(k)))
       IN IF ~r.ok THEN r
          ELSE IF \E p \in Level(k) : \E c \in Letter : ~Has(r.n, Append(p, c)) THEN [ok |-> FALSE, n |-> N]
          ELSE Rebuild([p \in Level(k) |-> <<"R", <<>>>>] @@ r.n, k - 1)

Log(rec) == /\ h' = Append(h, rec)
            /\ IF Emit THEN PrintT("@@SCRIPT " \o ToJson(h')) ELSE TRUE

Transform(r, m) ==
  /\ nodes' = [p \in {<<>>} |-> <<r, <<>>>>] /\ ml' = m /\ pure' = TRUE
  /\ Log([do |-> "transform", m |-> m, src |-> r])

Get(p) ==
  /\ nodes' = Read(nodes, ml, p).n
  /\ UNCHANGED <<ml, pure>>
  /\ Log([do |-> "get", p |-> p])

InitNodes(ps, name) ==
  /\ ReadAll(nodes, ml, ps).ok
  /\ nodes' = ReadAll(nodes, ml, ps).n
  /\ UNCHANGED <<ml, pure>>
  /\ Log([do |-> "init", which |-> name])

Set(p) ==
  /\ nodes' = [q \in {p} |-> <<"v", <<>>>>] @@ nodes
  /\ pure' = FALSE /\ UNCHANGED ml
  /\ Log([do |-> "set", p |-> p])

Del(p) ==
  /\ Has(nodes, p)
  /\ nodes' = [q \in DOMAIN nodes \ {p} |-> nodes[q]]
  /\ pure' = FALSE /\ UNCHANGED ml
  /\ Log([do |-> "del", p |-> p])

Contains(p) ==
  /\ UNCHANGED <<nodes, ml, pure>>
  /\ Log([do |-> "has", p |-> p])

Reconstruct ==
  /\ ml >= 0
  /\ LET r == Rebuild(nodes, ml - 1)
     IN r.ok /\ nodes' = r.n
  /\ pure' = FALSE /\ UNCHANGED ml
  /\ Log([do |-> "rec"])

\* a reconstruction that must fail; the history ends there
ReconstructFails ==
  /\ ml >= 0 => ~Rebuild(nodes, ml - 1).ok
  /\ UNCHANGED <<nodes, ml, pure>>
  /\ Log([do |-> "rec"])

Next ==
  /\ Len(h) < Depth
  /\ \/ \E r \in {"r1", "r2"}, m \in {1, 2} : Transform(r, m)
     \/ \E p \in Paths \cup Bad : Get(p)
     \/ ml = 2 /\ InitNodes(ToSeq(Level(2)), "leaves")
     \/ ml = 1 /\ InitNodes(ToSeq(Level(1)), "leaves")
     \/ ml >= 1 /\ InitNodes(ToSeq(Level(1)), "level1")
     \/ \E p \in Some : Set(p)
     \/ \E p \in Some : Del(p)
     \/ \E p \in {<<"a", "d">>, <<>>, <<"d">>} : Contains(p)
     \/ Reconstruct
     \/ ReconstructFails

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C11: in a tree that was only read, a node's value is its path applied to
\* the root, whatever the order of the reads was.
PathDetermined ==
  pure => \A p \in DOMAIN nodes : nodes[p] = <<nodes[<<>>][1], p>>

\* C12: siblings are stored together
SiblingsTogether ==
  pure => \A p \in DOMAIN nodes : p # <<>> =>
    LET q == SubSeq(p, 1, Len(p) - 1)
    IN Has(nodes, q) /\ \A c \in Letter : Has(nodes, Append(q, c))

\* nothing below the maximum level is ever computed
Bounded == \A p \in DOMAIN nodes : nodes[p][1] # "v" => Len(p) <= 2

\* C12: assignment changes the named node only
SetIsLocal ==
  [][\A p \in Some : (Len(h') > Len(h) /\ h'[Len(h')].do = "set" /\ h'[Len(h')].p = p)
        => \A q \in (DOMAIN nodes \cup DOMAIN nodes') \ {p} :
             Has(nodes, q) /\ Has(nodes', q) /\ nodes'[q] = nodes[q]]_vars

\* C12: membership tests never compute anything, reading never changes a stored node
ReadsAreStable ==
  [][(Len(h') > Len(h) /\ h'[Len(h')].do \in {"get", "init", "has"}) =>
        \A q \in DOMAIN nodes : Has(nodes', q) /\
           (nodes'[q] = nodes[q] \/ \E p \in Paths : Len(q) > 0 /\ p = SubSeq(q, 1, Len(q) - 1)
                                      /\ \E c \in Letter : ~Has(nodes, Append(p, c)))]_vars
=============================================================================
