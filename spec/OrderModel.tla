----------------------------- MODULE OrderModel -----------------------------
(***************************************************************************)
(* Design-level facts about the orders, checked for every level up to MaxJ: *)
(* they are permutations of all words, neighbours in the frequency order   *)
(* differ in one letter, and the reflected construction of the             *)
(* implementation (prefix a, mirrored prefix d) yields the frequency order.*)
(***************************************************************************)
EXTENDS Order

CONSTANT MaxJ
VARIABLE J
Init == J = 0
Next == J < MaxJ /\ J' = J + 1
Spec == Init /\ [][Next]_J

Words(n) == [1..n -> {"a", "d"}]
Range1(f) == {f[i] : i \in DOMAIN f}

Complete == LET o == TLCEval(FreqOrder1(J)) IN Len(o) = Pow2(J) /\ Range1(o) = Words(J)
Natural  == LET o == TLCEval(NaturalOrder(<<"a", "d">>, J)) IN Range1(o) = Words(J) /\ Len(o) = Pow2(J)
OneLetter ==
  LET o == TLCEval(FreqOrder1(J))
  IN \A i \in 1..(Len(o) - 1) : Cardinality({k \in 1..J : o[i][k] # o[i + 1][k]}) = 1

\* the next level is the reflected one
Reflected ==
  LET o == TLCEval(FreqOrder1(J))
      p == TLCEval(FreqOrder1(J + 1))
      n == Pow2(J)
  IN \A i \in 1..n : p[i] = <<"a">> \o o[i] /\ p[n + i] = <<"d">> \o o[n + 1 - i]

\* 2-D: complete and monotone in both ranks
Complete2 ==
  J <= 4 => LET g == TLCEval(FreqOrder2(J))
            IN {g[i][j] : i \in 1..Pow2(J), j \in 1..Pow2(J)} = [1..J -> {"a", "h", "v", "d"}]
=============================================================================
