------------------------------- MODULE Select -------------------------------
(* Selecting, slicing, summing and averaging along axes of a row-major     *)
(* tensor.  A selection is the list of source positions its result shows;  *)
(* a reduction is, per result position, the source positions it combines.  *)
EXTENDS Bases, Json
CONSTANTS Seed
VARIABLES kind, shape, axes, idx, ready

Shapes == UNION {[1..k -> 1..4] : k \in 1..3}
Small(s) == ProdSeq(s) <= 24
WideSeq == <<<<7>>, <<12>>, <<30>>, <<100>>, <<5, 7>>, <<9, 2>>, <<1, 11>>, <<8, 8>>, <<10, 6>>, <<2, 3, 9>>, <<5, 2, 7>>, <<8, 1, 5>>, <<3, 7, 4>>, <<2, 16, 2>>>>
Wide == {WideSeq[i] : i \in {j \in DOMAIN WideSeq : Mod(j + Seed, 3) = 0}}
Subsets(k) == SUBSET (1..k)
Orders(k) == {f \in UNION {[1..m -> 1..k] : m \in 0..k} : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
Range(f) == {f[i] : i \in DOMAIN f}
Others(s, f) == SortedSeq((DOMAIN s) \ Range(f))
Hash == SumSeq([i \in DOMAIN shape |-> shape[i] * (2 * i + 1)]) + SumSeq([i \in DOMAIN axes |-> i * axes[i]]) + Len(axes)
Init ==
  /\ ready = FALSE /\ shape \in {s \in Shapes : Small(s)} \cup Wide
  /\ \/ kind = "take" /\ axes \in Orders(Len(shape)) /\ Mod(Hash + Seed, IF Len(shape) = 3 THEN 4 ELSE 1) = 0
        /\ idx \in [1..(Len(shape) - Len(axes)) -> 0..3]
        /\ \A i \in DOMAIN idx : idx[i] < shape[Others(shape, axes)[i]] /\ (Mod(Hash, 2) = 0 \/ idx[i] # 1)
     \/ kind = "reduce" /\ \E S \in Subsets(Len(shape)) : axes = SortedSeq(S) /\ idx = <<>>
     \/ kind = "slice" /\ \E a \in DOMAIN shape : axes = <<a>> /\ idx \in {<<lo, st>> : lo \in 0..2, st \in {1, 2, -1}}
     \/ kind = "row" /\ axes = <<>> /\ idx \in {[a \in DOMAIN shape |-> IF a = 1 THEN u ELSE v] : u \in {-1, 0, 3}, v \in {0, 1, 5}}
Next == ~ready /\ ready' = TRUE /\ UNCHANGED <<kind, shape, axes, idx>>

N == ProdSeq(shape)
Src(F(_), n) == Arr(n, F)
\* --- take: result axes in the order asked for, the others at idx
TShape == [i \in DOMAIN axes |-> shape[axes[i]]]
TSrc == Arr(ProdSeq(TShape), LAMBDA f :
  LET d == Digits(TShape, f)
      full == [a \in DOMAIN shape |->
        IF a \in Range(axes) THEN d[CHOOSE i \in DOMAIN axes : axes[i] = a]
        ELSE idx[CHOOSE i \in DOMAIN idx : Others(shape, axes)[i] = a]]
  IN Flat(shape, full))
\* rank of each axis among those asked for
Rank == [i \in DOMAIN axes |-> Cardinality({j \in DOMAIN axes : axes[j] < axes[i]})]
\* --- reduce
RShape == LET o == Others(shape, axes) IN [i \in DOMAIN o |-> shape[o[i]]]
Groups == LET o == Others(shape, axes) IN Arr(ProdSeq(RShape), LAMBDA f :
  LET d == Digits(RShape, f) IN
  SortedSeq({g \in 0..N - 1 : LET e == Digits(shape, g) IN \A i \in DOMAIN o : e[o[i]] = d[i]}))
Weight(g) == LET e == Digits(shape, g) IN 1 + SumSeq([i \in DOMAIN axes |-> e[axes[i]]])   \* of a source position
Sums == [f \in DOMAIN Groups |-> GSumTo(Len(Groups[f]), LAMBDA k : Datum(Seed, Groups[f][k + 1]))]
WSums == [f \in DOMAIN Groups |-> GSumTo(Len(Groups[f]), LAMBDA k : GScale(Weight(Groups[f][k + 1]), Datum(Seed, Groups[f][k + 1])))]
WTot == IF Groups = <<>> THEN 1 ELSE SumTo(Len(Groups[1]), LAMBDA k : Weight(Groups[1][k + 1]))
Mags == [f \in DOMAIN Groups |-> SumTo(Len(Groups[f]), LAMBDA k : GAbs2(Datum(Seed, Groups[f][k + 1])))]
WMags == [f \in DOMAIN Groups |-> SumTo(Len(Groups[f]), LAMBDA k : Weight(Groups[f][k + 1]) * GAbs2(Datum(Seed, Groups[f][k + 1])))]
\* --- slice: from lo in steps of st to the end (the start if st is negative)
Ix == LET n == shape[axes[1]] lo == idx[1] st == idx[2] IN
      IF st > 0 THEN (IF lo >= n THEN <<>> ELSE Arr((n - lo + st - 1) \div st, LAMBDA i : lo + i * st))
      ELSE LET s == Min2(lo, n - 1) IN Arr(s + 1, LAMBDA i : s - i)
SShape == [shape EXCEPT ![axes[1]] = Len(Ix)]
SSrc == Arr(ProdSeq(SShape), LAMBDA f : LET d == Digits(SShape, f) IN
          Flat(shape, [d EXCEPT ![axes[1]] = Ix[d[axes[1]] + 1]]))
\* --- row of a list with a stacked index, wrapping
Row == Flat(shape, [a \in DOMAIN shape |-> Mod(idx[a], shape[a])])

Emit == ready => PrintT("@@" \o ToJson(
  CASE kind = "take" -> [kind |-> kind, shape |-> shape, axes |-> axes, idx |-> idx, out |-> TShape, src |-> TSrc, rank |-> Rank]
    [] kind = "reduce" -> [kind |-> kind, shape |-> shape, axes |-> axes, out |-> RShape, groups |-> Groups,
         data |-> Arr(N, LAMBDA i : Datum(Seed, i)), sums |-> Sums, wsums |-> WSums, wtot |-> WTot, mags |-> Mags, wmags |-> WMags]
    [] kind = "slice" -> [kind |-> kind, shape |-> shape, axes |-> axes, idx |-> idx, out |-> SShape, src |-> SSrc]
    [] kind = "row" -> [kind |-> kind, shape |-> shape, idx |-> idx, row |-> Row, inside |-> \A a \in DOMAIN shape : idx[a] = Mod(idx[a], shape[a])]))
----------------------------------------------------------------------------
\* no position is shown twice; together the selections at all indices show all
TakeInjective == (ready /\ kind = "take") => \A i, j \in DOMAIN TSrc : TSrc[i] = TSrc[j] => i = j
\* a reduction uses every position exactly once
Partition == (ready /\ kind = "reduce") =>
  /\ UNION {Range(Groups[f]) : f \in DOMAIN Groups} = 0..N - 1
  /\ SumSeq([f \in DOMAIN Groups |-> Len(Groups[f])]) = N
\* sums are linear: the total is kept
TotalKept == (ready /\ kind = "reduce") =>
  GSumTo(Len(Sums), LAMBDA f : Sums[f + 1]) = GSumTo(N, LAMBDA i : Datum(Seed, i))
\* taking along a permutation and back is the identity
TakeAll == (ready /\ kind = "take" /\ Len(axes) = Len(shape)) => Range(TSrc) = 0..N - 1
=============================================================================
