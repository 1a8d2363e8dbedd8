------------------------------ MODULE Lattice ------------------------------
(* Coordinate conventions of a grid with lattice vectors D (rows, integer) *)
(* and per-axis sizes n (stored) and nf (fundamental).                     *)
(*   position of grid index nx:  sum_a nx_a D_a / n_a                      *)
(*   reciprocal vectors K_a:     K_a . D_b = 2 pi delta_ab                 *)
(*   wavevector of index nk:     sum_a nk_a K_a, nk in FFT order           *)
(* Everything is rational: positions are emitted over a common denominator,*)
(* wavevectors as multiples of 2 pi / det D through the cofactor matrix.   *)
EXTENDS Bases, Json
CONSTANTS Seed, Big
VARIABLES D, ns, nfs, sp

Lat1 == {<<<<3>>>>, <<<<1>>>>}
Lat2 == {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 0>>, <<1, 3>>>>, <<<<2, 1>>, <<-1, 2>>>>, <<<<0, 2>>, <<3, 1>>>>}
Lat3 == {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<2, 0, 0>>, <<1, 3, 0>>, <<0, 0, 5>>>>,
         <<<<1, 1, 0>>, <<0, 1, 1>>, <<1, 0, 2>>>>, <<<<0, 0, 2>>, <<3, 0, 1>>, <<1, 2, 0>>>>}
Sz(k) == IF k = 1 THEN 1..6 ELSE IF k = 2 THEN 1..4 ELSE (IF Big THEN 1..4 ELSE 1..3)
Dim(l) == Len(l)

\* far larger grids, a few per run
Wide1 == <<<<7>>, <<8>>, <<9>>, <<12>>, <<16>>, <<17>>, <<25>>, <<31>>, <<32>>, <<33>>, <<50>>, <<64>>, <<99>>, <<100>>, <<128>>>>
Wide2 == <<<<5, 7>>, <<8, 3>>, <<9, 9>>, <<1, 16>>, <<12, 5>>, <<11, 10>>, <<2, 33>>, <<17, 4>>, <<16, 8>>>>
Wide3 == <<<<5, 4, 6>>, <<7, 2, 5>>, <<3, 8, 4>>, <<1, 9, 7>>, <<6, 6, 6>>, <<2, 3, 16>>, <<10, 1, 5>>>>
Wide(k) == LET w == CASE k = 1 -> Wide1 [] k = 2 -> Wide2 [] k = 3 -> Wide3 IN
  {w[i] : i \in {j \in DOMAIN w : Mod(j * 7 + Seed, IF Big THEN 1 ELSE IF k = 1 THEN 4 ELSE 3) = 0}}
InitWide ==
  \E k \in {1, 2, 3} :
    /\ D \in (CASE k = 1 -> {<<<<3>>>>} [] k = 2 -> {<<<<2, 1>>, <<-1, 2>>>>, <<<<0, 2>>, <<3, 1>>>>}
               [] k = 3 -> {<<<<1, 1, 0>>, <<0, 1, 1>>, <<1, 0, 2>>>>, <<<<0, 0, 2>>, <<3, 0, 1>>, <<1, 2, 0>>>>})
    /\ ns \in Wide(k)
    /\ \E e \in {0, 3} : nfs = [a \in 1..k |-> ns[a] + (IF a = 1 THEN e ELSE e \div 2)]
    /\ sp \in {[a \in 1..k |-> IF (a + Seed + ns[1]) % 2 = 0 THEN "x" ELSE "k"]}

Init == InitWide \/
  \E k \in {1, 2, 3} :
    /\ D \in (CASE k = 1 -> Lat1 [] k = 2 -> Lat2 [] k = 3 -> Lat3)
    /\ ns \in [1..k -> Sz(k)]
    /\ \E extra \in (IF k = 3 THEN {<<0, 0, 0>>, <<1, 0, 2>>} ELSE IF k = 2 THEN {<<0, 0>>, <<0, 3>>, <<1, 0>>} ELSE {<<0>>, <<1>>, <<2>>}) :
         nfs = [a \in 1..k |-> ns[a] + extra[a]]
    /\ sp \in (IF k = 1 THEN {<<"x">>, <<"k">>} ELSE IF k = 2 THEN {<<"x", "x">>, <<"x", "k">>} ELSE {<<"k", "x", "x">>})
Next == FALSE /\ UNCHANGED <<D, ns, nfs, sp>>

ND == Len(ns)
N == ProdSeq(ns)
NF == ProdSeq(nfs)
\* determinant and cofactors
Det == CASE ND = 1 -> D[1][1]
         [] ND = 2 -> D[1][1] * D[2][2] - D[1][2] * D[2][1]
         [] ND = 3 -> D[1][1] * (D[2][2] * D[3][3] - D[2][3] * D[3][2])
                    - D[1][2] * (D[2][1] * D[3][3] - D[2][3] * D[3][1])
                    + D[1][3] * (D[2][1] * D[3][2] - D[2][2] * D[3][1])
Nx3(i) == (i % 3) + 1
Cof == CASE ND = 1 -> <<<<1>>>>
         [] ND = 2 -> <<<<D[2][2], -D[2][1]>>, <<-D[1][2], D[1][1]>>>>
         [] ND = 3 -> [i \in 1..3 |-> [j \in 1..3 |->
               D[Nx3(i)][Nx3(j)] * D[Nx3(Nx3(i))][Nx3(Nx3(j))]
             - D[Nx3(i)][Nx3(Nx3(j))] * D[Nx3(Nx3(i))][Nx3(j)]]]
XOrder(shape) == Arr(ProdSeq(shape), LAMBDA f : Digits(shape, f))
KOrder(shape) == Arr(ProdSeq(shape), LAMBDA f :
                   LET d == Digits(shape, f) IN [a \in DOMAIN shape |-> Low(shape[a])[d[a] + 1]])
XNum(shape, d) == [c \in 1..ND |-> SumSeq([a \in 1..ND |-> d[a] * (ProdSeq(shape) \div shape[a]) * D[a][c]])]
KNum(d) == [c \in 1..ND |-> SumSeq([a \in 1..ND |-> d[a] * Cof[a][c]])]
Each(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
\* indices outside the shape wrap onto it
WrapFlat(d) == Flat(ns, [a \in 1..ND |-> Mod(d[a], ns[a])])
Probe == {[a \in 1..ND |-> IF a = 1 THEN u ELSE v] : u \in {-2, 1, 5}, v \in {-1, 0, 4}}
ProbeSeq == LET RECURSIVE ToSeq(_) ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x}) IN ToSeq(Probe)

Emit == PrintT("@@" \o ToJson([
  D |-> D, n |-> ns, nf |-> nfs, sp |-> sp, det |-> Det, cof |-> Cof,
  nx |-> XOrder(ns), nk |-> KOrder(ns), fnx |-> XOrder(nfs), fnk |-> KOrder(nfs),
  x |-> Each(XOrder(ns), LAMBDA d : XNum(ns, d)), xden |-> N,
  fx |-> Each(XOrder(nfs), LAMBDA d : XNum(nfs, d)), fxden |-> NF,
  k |-> Each(KOrder(ns), KNum), fk |-> Each(KOrder(nfs), KNum),
  probe |-> ProbeSeq, wrapped |-> Each(ProbeSeq, WrapFlat), probek |-> Each(ProbeSeq, KNum),
  probex |-> Each(ProbeSeq, LAMBDA d : XNum(ns, d))]))
----------------------------------------------------------------------------
Dual == \A a, b \in 1..ND : SumSeq([c \in 1..ND |-> Cof[a][c] * D[b][c]]) = IF a = b THEN Det ELSE 0
FlatStacked == \A f \in 0..N - 1 : Flat(ns, Digits(ns, f)) = f
\* the plane wave of index nk evaluated at grid point nx is the basis function
\* of Bases: k . x = 2 pi sum_a nk_a nx_a / n_a
PlaneWave == N <= 12 => \A i, j \in 1..N :
  LET d == XOrder(ns)[i] e == KOrder(ns)[j] IN
  SumSeq([c \in 1..ND |-> KNum(e)[c] * XNum(ns, d)[c]])
    = Det * SumSeq([a \in 1..ND |-> e[a] * d[a] * (N \div ns[a])])
\* FFT order: every residue exactly once, nearest zero, and Low agrees modulo n
FFTOrder == \A a \in 1..ND :
  /\ {Mod(Low(ns[a])[i], ns[a]) : i \in 1..ns[a]} = 0..ns[a] - 1
  /\ \A i \in 1..ns[a] : Mod(Low(ns[a])[i], ns[a]) = i - 1 /\ 2 * Low(ns[a])[i] \in -ns[a]..ns[a] - 1
=============================================================================
