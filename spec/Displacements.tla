--------------------------- MODULE Displacements ----------------------------
(* Displacements between the points of a periodic grid, and noise kernels  *)
(* that are functions of the displacement.                                 *)
(* Everything is integer: lengths are in units of 1/4, D is a diagonal     *)
(* lattice (axis a has n_a points a signed distance h_a apart) or, in the  *)
(* kind "skew", any integer lattice (positions over a common denominator). *)
EXTENDS Lattice
VARIABLES kind, org, ready

Aligned == {<<<<1>>>>, <<<<3>>>>, <<<<-2>>>>, <<<<2, 0>>, <<0, 3>>>>, <<<<1, 0>>, <<0, -1>>>>,
            <<<<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 3>>>>}
Skew == {<<<<2, 0>>, <<1, 3>>>>, <<<<2, 1>>, <<-1, 2>>>>, <<<<0, 2>>, <<3, 1>>>>, <<<<0, 2>>, <<3, 0>>>>,
         <<<<1, 1, 0>>, <<0, 1, 1>>, <<1, 0, 2>>>>}
Orgs == {0, 1, -3, 6, 40}
Small(k) == IF k = 1 THEN 1..(IF Big THEN 9 ELSE 7) ELSE IF k = 2 THEN 1..(IF Big THEN 5 ELSE 4) ELSE 1..(IF Big THEN 3 ELSE 2)
DInit ==
  /\ ready = FALSE /\ kind \in {"aligned", "skew"}
  /\ D \in (IF kind = "aligned" THEN Aligned ELSE Skew)
  /\ ns \in [1..Len(D) -> Small(Len(D))]
  /\ nfs \in {ns, [a \in DOMAIN ns |-> IF a = 1 THEN ns[a] + 1 ELSE ns[a]]}
  /\ ProdSeq(nfs) <= (IF Big THEN 18 ELSE 12)
  /\ sp \in {[a \in 1..Len(D) |-> IF (a + i) % 2 = 0 THEN "x" ELSE "k"] : i \in {0, 1}}
  /\ org \in (IF kind = "aligned" THEN [1..Len(D) -> Orgs] ELSE {[a \in 1..Len(D) |-> 0]})
  /\ (Len(D) > 1 /\ kind = "aligned") => Mod(SumSeq(org) + 3 * org[1] + SumSeq(ns) + Seed + SumSeq(nfs), IF Len(D) = 2 THEN 17 ELSE 83) = 0
  /\ kind = "skew" => Mod(ns[1] + 3 * ns[2] + Seed + D[1][1] + SumSeq(nfs), 3) = 0
DNext == ~ready /\ ready' = TRUE /\ UNCHANGED <<D, ns, nfs, sp, kind, org>>

\* index displacements: the representative of i - j in a window of n starting at -(n div 2)
WrapN(d, n) == Mod(d + n \div 2, n) - n \div 2
NxMat(n) == Arr(n, LAMBDA i : Arr(n, LAMBDA j : WrapN(i - j, n)))
NxFlat == NxMat(NF)
\* per axis, between the points of the stacked grid
GridPts == TLCEval(XOrder(nfs))
NxAxis(a) == LET pts == GridPts IN Arr(NF, LAMBDA i : Arr(NF, LAMBDA j : WrapN(pts[i + 1][a] - pts[j + 1][a], nfs[a])))
\* the axis by itself (every axis has its own points)
NxOwn(a) == NxMat(nfs[a])

\* lengths in quarters of the position unit over the number of points: the
\* window is half open, so only the size of a half-period displacement is fixed
Len4(a) == 4 * Abs(D[a][a])
WrapX(num, len) == LET m == Mod(num, len) IN IF 2 * m > len THEN m - len ELSE m
\* along a single axis the points are at i * |D| / n, positive whatever the direction
Single(o) == Arr(nfs[1], LAMBDA i : WrapX(Len4(1) * i - o * nfs[1], Len4(1) * nfs[1]))        \* over 4 nf
SingleMat(o) == Arr(nfs[1], LAMBDA i : Arr(nfs[1], LAMBDA j : WrapX(Len4(1) * (i - j) - o * nfs[1], Len4(1) * nfs[1])))
\* component a of the position of a grid point (aligned lattice), times 4 nf_a
PosA(pts, a, i) == 4 * D[a][a] * pts[i + 1][a]
AxisDisp(a) == LET pts == GridPts IN Arr(NF, LAMBDA i : WrapX(PosA(pts, a, i) - org[a] * nfs[a], Len4(a) * nfs[a]))
AxisMat(a) == LET pts == GridPts IN
  Arr(NF, LAMBDA i : Arr(NF, LAMBDA j : WrapX(PosA(pts, a, i) - PosA(pts, a, j) - org[a] * nfs[a], Len4(a) * nfs[a])))
\* squared total displacement with no origin, times (4 NF)^2
Plain(pts, a, i, j) == WrapX(PosA(pts, a, i) - PosA(pts, a, j), Len4(a) * nfs[a]) * (NF \div nfs[a])
Total2 == LET pts == GridPts IN
  Arr(NF, LAMBDA i : Arr(NF, LAMBDA j : SumSeq([a \in 1..ND |-> Plain(pts, a, i, j) * Plain(pts, a, i, j)])))

\* skewed lattices: squared lengths (times NF^2) of x_i - x_j plus a lattice vector
Imgs == [1..ND -> IF ND = 3 THEN -1..1 ELSE -2..2]
Norm2(v) == SumSeq([c \in DOMAIN v |-> v[c] * v[c]])
Images(pts, i, j) == {Norm2(XNum(nfs, [a \in 1..ND |-> pts[i + 1][a] - pts[j + 1][a] + R[a] * nfs[a]])) : R \in Imgs}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(CHOOSE x \in S : TRUE) IN <<x>> \o SetToSeq(TLCEval(S \ {x}))
ImagesFrom0 == LET pts == GridPts IN Arr(NF, LAMBDA i : SetToSeq(TLCEval(Images(pts, i, 0))))
\* shortest lattice vector named, squared
Shortest == CHOOSE m \in {Norm2(D[a]) : a \in 1..ND} : \A a \in 1..ND : m <= Norm2(D[a])

EmitD == ready => PrintT("@@" \o ToJson([
  kind |-> kind, D |-> D, n |-> ns, nf |-> nfs, sp |-> sp, org |-> org, short2 |-> Shortest,
  flat |-> NxFlat, axis |-> [a \in 1..ND |-> NxAxis(a)], own |-> [a \in 1..ND |-> NxOwn(a)],
  single |-> IF kind = "aligned" /\ ND = 1 THEN Single(org[1]) ELSE <<>>,
  singlemat |-> IF kind = "aligned" /\ ND = 1 THEN SingleMat(org[1]) ELSE <<>>,
  disp |-> IF kind = "aligned" THEN [a \in 1..ND |-> AxisDisp(a)] ELSE <<>>,
  mat |-> IF kind = "aligned" THEN [a \in 1..ND |-> AxisMat(a)] ELSE <<>>,
  total2 |-> IF kind = "aligned" THEN Total2 ELSE <<>>,
  images |-> IF kind = "skew" THEN ImagesFrom0 ELSE <<>>]))
----------------------------------------------------------------------------
\* a displacement is a representative of the difference, at most half a period long
Class == ready => LET pts == GridPts IN \A a \in 1..ND : \A i, j \in 1..NF :
  LET d == WrapN(pts[i][a] - pts[j][a], nfs[a]) IN
  /\ Mod(d - pts[i][a] + pts[j][a], nfs[a]) = 0
  /\ -(nfs[a] \div 2) <= d /\ 2 * d < nfs[a] + (nfs[a] % 2)
\* antisymmetric except for exactly half a period
Anti == ready => \A a \in 1..ND : \A i, j \in 0..nfs[a] - 1 :
  WrapN(i - j, nfs[a]) = -WrapN(j - i, nfs[a]) \/ 2 * WrapN(i - j, nfs[a]) = -nfs[a]
\* the displacement between two points depends on their difference only
Homogeneous == (ready /\ kind = "aligned") => LET pts == GridPts t == TLCEval(Total2) IN \A i, j \in 1..NF :
  LET s == [a \in 1..ND |-> Mod(pts[i][a] - pts[j][a], nfs[a])] IN t[i][j] = t[Flat(nfs, s) + 1][1]
\* aligned total displacement is that of the nearest image
Nearest == (ready /\ kind = "aligned") => LET pts == GridPts t == TLCEval(Total2) IN \A i \in 1..NF :
  \A x \in Images(pts, i - 1, 0) : 16 * x >= t[i][1]
=============================================================================
