------------------------------- MODULE Cyclo -------------------------------
(* Exact arithmetic used by the other modules.                             *)
(*  - Gaussian integers <<re, im>>                                         *)
(*  - cyclotomic integers: sums of roots of unity w = exp(2 pi i / N),     *)
(*    represented by their coefficient sequence c of length N              *)
(*    (c[k+1] multiplies w^k); Reduce gives the canonical form modulo the  *)
(*    N-th cyclotomic polynomial, so equality of values is decidable.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Arr(n, F(_)) == TLCEval([i \in 1..n |-> F(i - 1)])         \* 0-based construction
At(s, i) == s[i + 1]                                \* 0-based access

SumTo(n, F(_)) == LET S[k \in 0..n] == IF k = 0 THEN 0 ELSE S[k - 1] + F(k - 1) IN S[n]
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
\* floor division and non-negative remainder also for negative a (n > 0)
Mod(a, n) == ((a % n) + n) % n
FDiv(a, n) == (a - Mod(a, n)) \div n

\* Gaussian integers
G0 == <<0, 0>>
G1 == <<1, 0>>
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GConj(a) == <<a[1], -a[2]>>
GScale(s, a) == <<s * a[1], s * a[2]>>
GAbs2(a) == a[1] * a[1] + a[2] * a[2]
GNeg(a) == <<-a[1], -a[2]>>
GSumTo(n, F(_)) == LET S[k \in 0..n] == IF k = 0 THEN G0 ELSE GAdd(S[k - 1], F(k - 1)) IN S[n]
\* i^k
IPow(k) == CASE Mod(k, 4) = 0 -> <<1, 0>> [] Mod(k, 4) = 1 -> <<0, 1>>
             [] Mod(k, 4) = 2 -> <<-1, 0>> [] Mod(k, 4) = 3 -> <<0, -1>>
\* A deterministic, seed-dependent small Gaussian integer (test data)
Datum(seed, i) == <<Mod(7 * i * i + 3 * i * seed + 5 * seed + 1, 9) - 4,
                    Mod(5 * i * i + 11 * i + 2 * seed * i + seed, 7) - 3>>

\* cyclotomic integers of order N
CZero(N) == [k \in 1..N |-> 0]
CMono(N, e, a) == [k \in 1..N |-> IF k - 1 = Mod(e, N) THEN a ELSE 0]
CAdd(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
CScale(s, a) == [k \in DOMAIN a |-> s * a[k]]
CShift(a, e) == [k \in DOMAIN a |-> a[Mod(k - 1 - e, Len(a)) + 1]]
CConj(a) == [k \in DOMAIN a |-> a[Mod(-(k - 1), Len(a)) + 1]]
CSumTo(N, n, F(_)) ==
  LET S[k \in 0..n] == IF k = 0 THEN CZero(N) ELSE CAdd(S[k - 1], F(k - 1)) IN S[n]

\* monic cyclotomic polynomials, coefficients from degree 0
Phi(N) ==
  CASE N = 1 -> <<-1, 1>>
    [] N = 2 -> <<1, 1>>
    [] N = 3 -> <<1, 1, 1>>
    [] N = 4 -> <<1, 0, 1>>
    [] N = 5 -> <<1, 1, 1, 1, 1>>
    [] N = 6 -> <<1, -1, 1>>
    [] N = 7 -> <<1, 1, 1, 1, 1, 1, 1>>
    [] N = 8 -> <<1, 0, 0, 0, 1>>
    [] N = 9 -> <<1, 0, 0, 1, 0, 0, 1>>
    [] N = 10 -> <<1, -1, 1, -1, 1>>
    [] N = 12 -> <<1, 0, -1, 0, 1>>

RECURSIVE ReduceFrom(_, _, _)
ReduceFrom(a, d, phi) ==
  LET deg == Len(phi) - 1 IN
  IF d < deg THEN a
  ELSE LET c == a[d + 1]
           b == [k \in DOMAIN a |->
                   IF k - 1 >= d - deg /\ k - 1 <= d
                   THEN a[k] - c * phi[k - (d - deg)] ELSE a[k]]
       IN ReduceFrom(b, d - 1, phi)
Reduce(a) == ReduceFrom(a, Len(a) - 1, Phi(Len(a)))
CEq(a, b) == Reduce([k \in DOMAIN a |-> a[k] - b[k]]) = CZero(Len(a))
=============================================================================
