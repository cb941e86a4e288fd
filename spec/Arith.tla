------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Exact arithmetic modulo a prime.  Data and filter taps of the driven    *)
(* executions are random integers, every transform of the library is       *)
(* polynomial in them, and the harness logs the (exactly integral) results *)
(* of the real code modulo P.  P < 2^15 keeps products inside TLC's 32-bit *)
(* integers.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

P == 32749
Inv2 == 16375                    \* 2 * Inv2 = 1 (mod P)

Mod(a) == a % P                  \* TLC: the result is in 0..P-1 for every integer a
Neg(a) == (P - a) % P
Mul(a, b) == (a * b) % P
Add(a, b) == (a + b) % P

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE Mul(b, Pow(b, e - 1))

\* Sum over a finite set of values of an operator, modulo P.
SumOver(S, f(_)) == FoldSet(LAMBDA k, a : (a + f(k)) % P, 0, S)

\* Dot product of two sequences of the same length.
Dot(u, v) == FoldLeftDomain(LAMBDA a, k : (a + u[k] * v[k]) % P, 0, u)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE ProdRange(_, _, _)
ProdRange(s, i, j) == IF i > j THEN 1 ELSE s[i] * ProdRange(s, i + 1, j)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

=============================================================================
