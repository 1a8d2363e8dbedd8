------------------------------ MODULE Geometry ------------------------------
(* Periodic geometry of a grid: wrapping around an origin, distances along *)
(* paths, projections onto axes, bragg planes and folding into lower       *)
(* brillouin zones.  Reciprocal-space lengths are in units of 2 pi / Det.  *)
EXTENDS Lattice
VARIABLES kind, ready   \* the second step only lets TLC spread the work

GLat2 == {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 0>>, <<1, 3>>>>, <<<<2, 1>>, <<-1, 2>>>>, <<<<0, 2>>, <<3, 1>>>>}
GLat3 == {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 1, 0>>, <<0, 1, 1>>, <<1, 0, 2>>>>,
          <<<<0, 0, 2>>, <<3, 0, 1>>, <<1, 2, 0>>>>}
GInit == ready = FALSE /\ (
  \/ /\ kind = "ring" /\ ns \in [1..1 -> (1..7) \cup {8, 9, 12, 16, 17, 25}] /\ D = <<<<1>>>> /\ nfs = ns /\ sp = <<"x">>
  \/ /\ kind = "grid" 
     /\ \E k \in {1, 2, 3} :
          /\ D \in (CASE k = 1 -> Lat1 [] k = 2 -> GLat2 [] k = 3 -> GLat3)
          /\ ns \in [1..k -> IF k = 1 THEN 1..5 ELSE IF k = 2 THEN 1..(IF Big THEN 4 ELSE 3) ELSE 1..2]
          /\ nfs = ns
          /\ sp = [a \in 1..k |-> IF a = 2 THEN "k" ELSE "x"] )
GNext == ~ready /\ ready' = TRUE /\ UNCHANGED <<D, ns, nfs, sp, kind>>

\* ---- rings
\* the representative of d in the window of length len starting half a ring
\* (rounded down) before the origin
WrapIdx(d, len, o) == Mod(d - o + len \div 2, len) + o - len \div 2
Origins == -3..5
Ds == -11..12
RingTable == Arr(9, LAMBDA i : Arr(24, LAMBDA j : WrapIdx(j - 11, ns[1], i - 3)))
\* distances in units of 1/12 of the ring
FracWrap(p, o) == Mod(p - o + 6, 12) + o - 6
FracTable == Arr(7, LAMBDA i : Arr(60, LAMBDA j : FracWrap(j - 30, 3 * i - 7)))

\* ---- vectors
Dot(u, v) == SumSeq([c \in DOMAIN u |-> u[c] * v[c]])
Sq(u) == Dot(u, u)
Box == {[a \in 1..ND |-> f[a]] : f \in [1..ND -> IF ND = 3 THEN -3..3 ELSE IF ND = 2 THEN -6..6 ELSE -9..9]}
BraggIdx(bands) == LET w == [a \in 1..ND |-> 2 * bands + 1] IN
  Each(KOrder(w), LAMBDA d : [a \in 1..ND |-> d[a] * ns[a]])
\* twice |G| times the distance of k beyond the plane halfway to G
Beyond(k, g) == 2 * Dot(k, g) - Sq(g)
\* a^2/g < b^2/h for non-negative a, b and positive g, h, without large products
LessQ(a, g, b, h) == LET q1 == (a * a) \div g q2 == (b * b) \div h IN
  q1 < q2 \/ (q1 = q2 /\ ((a * a) % g) * h < ((b * b) % h) * g)
Fold(d) ==
  LET k == KNum(d)
      bs == BraggIdx(1)
      B == {bs[i] : i \in 2..Len(bs)}
      In == {g \in B : Beyond(k, KNum(g)) > 0}
      Best(g) == \A h \in In : ~LessQ(Beyond(k, KNum(h)), Sq(KNum(h)), Beyond(k, KNum(g)), Sq(KNum(g)))
  IN IF In = {} THEN {d}
     ELSE {[a \in 1..ND |-> d[a] - g[a]] : g \in {g \in In : Best(g)}}
SeqOf(S) == LET RECURSIVE ToSeq(_) ToSeq(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o ToSeq(T \ {x}) IN ToSeq(S)
Sampled == IF ND < 3 THEN Box ELSE {d \in Box : Mod(d[1] + 3 * d[2] + 9 * d[3] + Seed + SumSeq(ns), 5) = 0}
Folds == Each(SeqOf(Sampled), LAMBDA d : <<d, SeqOf(Fold(d))>>)
Beyonds == LET ks == SeqOf({d \in Sampled : Mod(SumSeq(d) + Seed, 3) = 0})
                bs == BraggIdx(1) IN
  [i \in 1..Len(bs) - 1 |-> <<bs[i + 1], Sq(KNum(bs[i + 1])),
     Each(ks, LAMBDA d : <<d, Beyond(KNum(d), KNum(bs[i + 1]))>>)>>]

\* ---- paths
PLen == 6
Path == Arr(PLen, LAMBDA i : [a \in 1..ND |-> Mod(5 * i * i + 3 * a * i + Seed * (i + a) + a, ns[a])])
Diff(p) == Arr(PLen - 1, LAMBDA i : [a \in 1..ND |-> p[i + 1][a] - p[i + 2][a]])
\* real-valued half window: [-n/2, n/2)
WrapHalf(d, n) == LET m == Mod(d, n) IN IF 2 * m >= n THEN m - n ELSE m
WDiff(p) == Each(Diff(p), LAMBDA d : [a \in 1..ND |-> WrapHalf(d[a], ns[a])])
X2(ds) == Each(ds, LAMBDA d : Sq(XNum(ns, d)))     \* over N^2
K2(ds) == Each(ds, LAMBDA d : Sq(KNum(d)))         \* times (2 pi / Det)^2

\* ---- projections on orthonormalised axes (Gram-Schmidt, integer multiples)
RECURSIVE GS(_, _)
GS(v, k) == IF k = 1 THEN v[1]
  ELSE IF k = 2 THEN LET b == v[1] IN [c \in DOMAIN v[1] |-> v[2][c] * Sq(b) - b[c] * Dot(b, v[2])]
  ELSE LET b1 == v[1] b2 == GS(v, 2) n1 == Sq(b1) n2 == Sq(b2) IN
       \* orthogonal to b1 and b2 in three dimensions: the cross product, oriented along v3
       LET x == [c \in 1..3 |-> v[1][Nx3(c)] * v[2][Nx3(Nx3(c))] - v[1][Nx3(Nx3(c))] * v[2][Nx3(c)]]
           s == IF Dot(x, v[3]) > 0 THEN 1 ELSE -1
       IN [c \in 1..3 |-> s * x[c]]
AxesLists == {f \in UNION {[1..k -> 1..ND] : k \in 1..ND} : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
Projs(vec(_)) == Each(SeqOf(AxesLists), LAMBDA f :
   <<f, [k \in DOMAIN f |-> LET b == GS([i \in DOMAIN f |-> vec(f[i])], k) IN <<b, Sq(b)>>]>>)
UnitA(a) == [b \in 1..ND |-> IF a = b THEN 1 ELSE 0]
XProj == Projs(LAMBDA a : D[a])
KProj == Projs(LAMBDA a : LET k == KNum(UnitA(a)) IN IF Det > 0 THEN k ELSE [c \in DOMAIN k |-> -k[c]])

GEmit == ready => PrintT("@@" \o ToJson(
  IF kind = "ring" THEN [kind |-> kind, n |-> ns[1], table |-> RingTable, frac |-> FracTable]
  ELSE [kind |-> kind, D |-> D, n |-> ns, sp |-> sp, det |-> Det, cof |-> Cof, N |-> N,
        bragg |-> <<BraggIdx(1), BraggIdx(2)>>, folds |-> Folds, beyond |-> Beyonds,
        path |-> Path, diff |-> Diff(Path), wdiff |-> WDiff(Path), x2 |-> X2(Diff(Path)), wx2 |-> X2(WDiff(Path)),
        k2 |-> K2(Diff(Path)), wk2 |-> K2(WDiff(Path)), xproj |-> XProj, kproj |-> KProj]))
----------------------------------------------------------------------------
\* wrapping picks a congruent index, at most half a ring from the origin
WrapNearest == (ready /\ kind = "ring") => \A d \in Ds, o \in Origins : LET w == WrapIdx(d, ns[1], o) IN
  /\ Mod(w - d, ns[1]) = 0 /\ 2 * Abs(w - o) <= ns[1]
  /\ \A e \in Ds : Mod(e - d, ns[1]) = 0 => Abs(w - o) <= Abs(e - o)
\* folding shortens the wavevector, by a reciprocal lattice vector of the grid;
\* a point of the first zone stays
FoldShrinks == (ready /\ kind = "grid") => \A d \in Sampled : \A e \in Fold(d) :
  /\ \A a \in 1..ND : Mod(e[a] - d[a], ns[a]) = 0
  /\ e # d => Sq(KNum(e)) < Sq(KNum(d))
FirstZoneStays == (ready /\ kind = "grid") => \A d \in Sampled :
  LET bs == BraggIdx(1) IN
  (\A i \in 1..Len(bs) : LET g == bs[i] IN
     Sq(KNum(d)) <= Sq(KNum([a \in 1..ND |-> d[a] - g[a]]))) <=> Fold(d) = {d}
WrapShorter == (ready /\ kind = "grid") => \A i \in 1..PLen - 1, a \in 1..ND :
  /\ Abs(WDiff(Path)[i][a]) <= Abs(Diff(Path)[i][a]) /\ Mod(WDiff(Path)[i][a] - Diff(Path)[i][a], ns[a]) = 0
Orthogonal == (ready /\ kind = "grid") => \A f \in AxesLists : \A i, j \in DOMAIN f :
  LET v == [m \in DOMAIN f |-> D[f[m]]] IN
  /\ i # j => Dot(GS(v, i), GS(v, j)) = 0
  /\ i = j => Dot(GS(v, i), v[i]) > 0
=============================================================================
