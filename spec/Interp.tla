------------------------------- MODULE Interp -------------------------------
(* Fourier padding and interpolation of periodic samples.                   *)
(* n samples of a function on a ring determine its Fourier coefficients at *)
(* the n frequencies nearest zero; the samples at s points are those of    *)
(* the function with the frequencies kept that both grids represent.       *)
(*  pad    position of the coefficient with the same frequency (or none)   *)
(*  cplx   the interpolation of complex samples: sample m contributes      *)
(*         sum_k exp(2 pi i k (j/s - m/n)) / n to point j                  *)
(*  real   for real samples the frequencies come in pairs +-k, so the      *)
(*         highest one of an even grid also has its partner: the real part *)
(*         of a sum over k >= 0 in which paired frequencies count twice    *)
EXTENDS Bases, Json
CONSTANTS MaxN, Seed, Per
VARIABLES kind, n, s, shape, axes, new

LowSet(m) == {Low(m)[i] : i \in 1..m}
Pad(a, b) == Arr(b, LAMBDA j : LET k == Low(b)[j + 1] IN
               IF k \in LowSet(a) THEN Mod(k, a) ELSE -1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
L == Lcm(n, s)
Kept(a, b) == LowSet(a) \cap LowSet(b)
KeptSeq(a, b) == LET lo == -(Min2(a, b) \div 2) IN
                 Arr(Min2(a, b), LAMBDA i : lo + i)
Ex(a, b, j, m, k) == LET l == Lcm(a, b) IN Mod(k * (j * (l \div b) - m * (l \div a)), l)
Cplx == Arr(s, LAMBDA j : Arr(n, LAMBDA m :
          [i \in DOMAIN KeptSeq(n, s) |-> Ex(n, s, j, m, KeptSeq(n, s)[i])]))
KMax == Min2(n \div 2, s \div 2)
Wt(k) == IF k = 0 \/ (2 * k = s) THEN 1 ELSE 2
RealM == Arr(s, LAMBDA j : Arr(n, LAMBDA m :
           Arr(KMax + 1, LAMBDA k : <<Ex(n, s, j, m, k), Wt(k)>>)))
\* one-sided storage: number of coefficients of s real points
HalfPad(a, b) == Arr(b \div 2 + 1, LAMBDA k : IF k < a THEN k ELSE -1)

Pairs == <<<<7, 16>>, <<9, 12>>, <<8, 32>>, <<13, 20>>, <<7, 30>>, <<10, 25>>, <<11, 33>>, <<12, 17>>, <<16, 24>>,
           <<15, 15>>, <<8, 9>>, <<10, 31>>, <<12, 12>>, <<14, 21>>, <<9, 40>>, <<1, 50>>>>
Perms(k) == {f \in [1..k -> 1..3] : \A i, j \in 1..k : f[i] = f[j] => i = j}
Init ==
  \/ /\ kind = "1d" /\ n \in 1..MaxN /\ s \in 1..MaxN
     /\ shape = <<>> /\ axes = <<>> /\ new = <<>>
  \* larger rings, a few per run
  \/ /\ kind = "1d" /\ \E i \in DOMAIN Pairs : /\ Mod(i + Seed, 4) = 0
                                             /\ \/ n = Pairs[i][1] /\ s = Pairs[i][2]
                                                \/ n = Pairs[i][2] /\ s = Pairs[i][1]
     /\ shape = <<>> /\ axes = <<>> /\ new = <<>>
  \/ /\ kind = "nd" /\ n = 0 /\ s = 0
     /\ shape \in [1..3 -> 1..4] /\ \E k \in 1..3 : axes \in Perms(k) /\ new \in [1..k -> 1..5]
     /\ Mod(SumSeq([i \in 1..3 |-> shape[i] * (2 * i + 3)]) + SumSeq([i \in DOMAIN axes |-> (i + 4) * axes[i]])
           + SumSeq([i \in DOMAIN new |-> (3 * i + 7) * new[i] * new[i]]) + Seed, Per) = 0
Next == FALSE /\ UNCHANGED <<kind, n, s, shape, axes, new>>
Emit == PrintT("@@" \o ToJson(
  IF kind = "1d"
  THEN [kind |-> kind, n |-> n, s |-> s, L |-> L, pad |-> Pad(n, s), cplx |-> Cplx, real |-> RealM,
        half |-> HalfPad(n, s)]
  ELSE [kind |-> kind, shape |-> shape, axes |-> axes, new |-> new]))
----------------------------------------------------------------------------
\* coefficients keep their frequency; padding and truncating back is lossless
PadKeepsFrequency == kind = "1d" =>
  /\ Kept(n, s) = {KeptSeq(n, s)[i] : i \in 1..Min2(n, s)}
  /\ \A j \in 1..s : Pad(n, s)[j] # -1 => Low(n)[Pad(n, s)[j] + 1] = Low(s)[j]
  /\ (s >= n) => \A i \in 1..n : LET j == Pad(s, n)[i] IN j # -1 /\ Pad(n, s)[j + 1] = i - 1
\* sum of roots of unity of the listed exponents
RootSum(l, es) == CSumTo(l, Len(es), LAMBDA i : CMono(l, es[i + 1], 1))
Decidable(l) == l \in (1..10) \cup {12}
\* the interpolated function passes through the samples (complex: always when
\* the new grid refines the old one)
PassesThrough == (kind = "1d" /\ s % n = 0 /\ Decidable(s)) =>
  \A j, m \in 0..n - 1 : CEq(RootSum(s, Cplx[j * (s \div n) + 1][m + 1]),
                              CMono(s, 0, IF j = m THEN n ELSE 0))
\* constants are preserved
Constant == (kind = "1d" /\ Decidable(L)) => \A j \in 1..s :
  CEq(CSumTo(L, n, LAMBDA m : RootSum(L, Cplx[j][m + 1])), CMono(L, 0, n))
\* real interpolation of odd grids agrees with the complex one (twice the real part)
RealAgrees == (kind = "1d" /\ n % 2 = 1 /\ s % 2 = 1 /\ Decidable(L)) => \A j \in 1..s, m \in 1..n :
  LET h == CSumTo(L, KMax + 1, LAMBDA k : CMono(L, RealM[j][m][k + 1][1], RealM[j][m][k + 1][2]))
      c == RootSum(L, Cplx[j][m])
  IN CEq(CAdd(h, CConj(h)), CAdd(c, CConj(c)))
\* real interpolation passes through the samples of an odd grid
RealPasses == (kind = "1d" /\ n % 2 = 1 /\ s % n = 0 /\ Decidable(s)) =>
  \A j, m \in 0..n - 1 :
    LET h == CSumTo(s, KMax + 1, LAMBDA k : CMono(s, RealM[j * (s \div n) + 1][m + 1][k + 1][1],
                                                    RealM[j * (s \div n) + 1][m + 1][k + 1][2]))
    IN CEq(CAdd(h, CConj(h)), CMono(s, 0, IF j = m THEN 2 * n ELSE 0))
=============================================================================
