------------------------------ MODULE Pictures ------------------------------
(* What is drawn of data on a grid.  Data in any basis are drawn in the    *)
(* complete position ("x") or momentum ("k") basis, against the position   *)
(* or wavevector of each point; wavevectors ascend from the most negative. *)
(*  line   along one axis, the other indices given or those of the largest *)
(*         value; a curve is closed with its first value one step on       *)
(*  mesh   over two axes, in the order asked for                           *)
(*  film   over two axes, one frame for each point of the third            *)
(*  path   along a path of grid points, against the distance covered, each *)
(*         step as it is or the shortest one around the cell               *)
(* A drawn point is (index along every axis, coordinates along every axis).*)
EXTENDS Wavepackets
DG1 == {<<a>> : a \in {2, 3, 4, 6}}
DG2 == {<<a, b>> \in {1, 2, 3, 4, 6} \X {1, 2, 3, 4, 6} : a * b <= MaxN}
DG3 == {<<a, b, c>> \in {1, 2, 3, 4} \X {1, 2, 3, 4} \X {1, 2, 3, 4} : a * b * c <= MaxN /\ a * b * c > 3}
DH(s) == SumSeq([a \in DOMAIN s |-> (2 * a + 1) * s[a]])
DStacks(m1, m2, m3) == UNION {{b \in Stack(s, AnyOf) : Len(s) = 1 \/ Mod(Hash(b) + Seed, (IF Len(s) = 2 THEN m2 ELSE m3) * Per) = 0} :
                         s \in {s \in DG1 \cup DG2 \cup DG3 : Len(s) < 3 \/ Mod(DH(s) + Seed, m1) = 0}}
Others(n, axes) == {a \in 1..n : \A i \in DOMAIN axes : axes[i] # a}
OtherSeq(n, axes) == LET s == Others(n, axes) IN [i \in 1..Cardinality(s) |-> CHOOSE a \in s : Cardinality({b \in s : b < a}) = i - 1]
InitD ==
  /\ ready = FALSE
  /\ \/ /\ kind = "line" /\ q \in {<<"x">>, <<"k">>}
        /\ p \in DStacks(5, 7, 41)
        /\ x \in {<<a>> : a \in {a \in DOMAIN p : p[a].nf > 1}}
        /\ v \in {<<>>, <<1>>} /\ (v = <<>> => Len(p) > 1)                        \* <<>>: indices of the largest
        /\ u \in {f \in [1..(Len(p) - 1) -> 0..3] : \A i \in DOMAIN f : f[i] < p[OtherSeq(Len(p), x)[i]].nf}
        /\ (v = <<>> => u = [i \in 1..(Len(p) - 1) |-> 0])
        /\ (Len(p) > 1 => Mod(Hash(p) + 3 * x[1] + SumSeq([i \in DOMAIN u |-> (i + 1) * u[i]]) + Len(v) + Seed, IF Len(p) = 2 THEN 2 ELSE 5) = 0)
     \/ /\ kind = "mesh" /\ q \in {<<"x">>, <<"k">>}
        /\ p \in DStacks(3, 5, 23) /\ Len(p) > 1
        /\ x \in {<<a, b>> \in (DOMAIN p) \X (DOMAIN p) : a # b}
        /\ v \in {<<>>, <<1>>} /\ (v = <<>> => Len(p) > 2)
        /\ u \in {f \in [1..(Len(p) - 2) -> 0..3] : \A i \in DOMAIN f : f[i] < p[OtherSeq(Len(p), x)[i]].nf}
        /\ (v = <<>> => u = [i \in 1..(Len(p) - 2) |-> 0])
        /\ (Len(p) > 2 => Mod(Hash(p) + 3 * x[1] + 2 * x[2] + SumSeq([i \in DOMAIN u |-> (i + 1) * u[i]]) + Len(v) + Seed, 5) = 0)
     \/ /\ kind = "film" /\ q = <<"x">> /\ v = <<>> /\ u = <<>>
        /\ p \in DStacks(2, 7, 11) /\ Len(p) = 3
        /\ x \in {<<a, b, c>> \in (1..3) \X (1..3) \X (1..3) : a # b /\ b # c /\ a # c}
        /\ Mod(DH(FShape(p)) + Hash(p) + x[1] + 3 * x[2] + Seed, 2) = 0
     \/ /\ kind = "path" /\ q \in {<<"x">>, <<"k">>} /\ v \in {<<>>, <<1>>} /\ x = <<>>    \* <<1>>: the shortest way round
        /\ p \in DStacks(5, 7, 61)
        /\ u \in [DOMAIN p -> {<<0, 0, 1, 0>>, <<0, 1, 2, 3>>, <<2, 0, 0, 1>>, <<3, 3, 0, 2>>}]
        /\ Mod(Hash(p) + SumSeq([a \in DOMAIN u |-> (a + 1) * (u[a][1] + 2 * u[a][4])]) + Len(v) + Seed, IF Len(p) = 1 THEN 3 ELSE IF Len(p) = 2 THEN 11 ELSE 37) = 0
----------------------------------------------------------------------------
ND == Len(p)
DN == NFOf(p)
DData == RData(Seed + Hash(p), NOf(p))
DCol(d) == RUnflat(d, Len(d), 1)
Into(b) == RFlatten(RMM(Cv(b, p), DCol(DData)))
In == IF q[1] = "x" THEN Into(FX(p)) ELSE Into(FK(p))
Sc == IF q[1] = "x" THEN ScaleS(FX(p), p) ELSE ScaleS(FK(p), p)
\* sizes of complex values: squares are a + b sqrt 3
Sq3(r) == LET s == RMul(RConj(r), r) IN <<s[1], s[2] \div 2>>
Bigger(s, t) == LET a == s[1] - t[1] b == s[2] - t[2] IN       \* a + b sqrt 3 > 0
  CASE a >= 0 /\ b >= 0 -> a + b > 0
    [] a <= 0 /\ b <= 0 -> FALSE
    [] a > 0 /\ b < 0 -> a * a > 3 * b * b
    [] a < 0 /\ b > 0 -> 3 * b * b > a * a
Largest == LET w == TLCEval(In) s == TLCEval([f \in DOMAIN w |-> Sq3(w[f])]) IN
  {f \in 0..DN - 1 : \A g \in 0..DN - 1 : g = f \/ Bigger(s[f + 1], s[g + 1])}
Known == v = <<1>> \/ kind \in {"film", "path"} \/ Largest # {}
AtIdx == IF v = <<1>> \/ Others(ND, x) = {} THEN u
       ELSE LET d == Digits(FShape(p), CHOOSE f \in Largest : TRUE) o == OtherSeq(ND, x) IN [i \in DOMAIN o |-> d[o[i]]]
\* coordinate of index i along axis a, and the order in which an axis is drawn
Coord(a, i) == IF q[1] = "x" THEN i ELSE Low(p[a].nf)[i + 1]
InOrder(a) == LET n == p[a].nf IN IF q[1] = "x" THEN [i \in 1..n |-> i - 1] ELSE [i \in 1..n |-> Mod(i - 1 - (n \div 2), n)]
Put(axes, ds) == LET o == OtherSeq(ND, axes) id == AtIdx IN
  [a \in 1..ND |-> IF \E i \in DOMAIN axes : axes[i] = a THEN ds[CHOOSE i \in DOMAIN axes : axes[i] = a]
                   ELSE id[CHOOSE i \in DOMAIN o : o[i] = a]]
Point(d) == <<Flat(FShape(p), d), [a \in 1..ND |-> Coord(a, d[a])]>>
LinePts == LET o == InOrder(x[1]) n == p[x[1]].nf IN
  [i \in 1..(n + 1) |-> LET pt == Point(Put(x, <<o[IF i > n THEN 1 ELSE i]>>)) IN
     IF i <= n THEN pt ELSE <<pt[1], [pt[2] EXCEPT ![x[1]] = pt[2][x[1]] + n]>>]
MeshPts == LET o1 == InOrder(x[1]) o2 == InOrder(x[2]) IN
  [i \in 1..p[x[1]].nf |-> [j \in 1..p[x[2]].nf |-> Point(Put(<<x[1], x[2]>>, <<o1[i], o2[j]>>))]]
FilmPts == [t \in 1..p[x[3]].nf |-> [i \in 1..p[x[1]].nf |-> [j \in 1..p[x[2]].nf |->
  LET d == [a \in 1..3 |-> IF a = x[1] THEN i - 1 ELSE IF a = x[2] THEN j - 1 ELSE t - 1] IN
  <<Flat(FShape(p), d), [a \in 1..3 |-> IF a = x[3] THEN t - 1 ELSE d[a]]>>]]]
On(j) == [a \in 1..ND |-> Mod(u[a][j], p[a].nf)]
Short(d, n) == (Mod(2 * d + n, 2 * n) - n) \div 2
Step(j) == [a \in 1..ND |-> LET d == On(j)[a] - On(j + 1)[a] IN IF v = <<1>> THEN Short(d, p[a].nf) ELSE d]

EmitD == (ready /\ Known) => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, x |-> x, u |-> u, v |-> v, data |-> DData, in |-> In, s |-> Sc] @@
  (CASE kind = "line" -> [pts |-> LinePts, idx |-> AtIdx]
    [] kind = "mesh" -> [pts |-> MeshPts, idx |-> AtIdx]
    [] kind = "film" -> [pts |-> FilmPts]
    [] kind = "path" -> [pts |-> Arr(4, LAMBDA j : Flat(FShape(p), On(j + 1))), on |-> [a \in 1..ND |-> Arr(4, LAMBDA j : On(j + 1)[a])],
                         steps |-> Arr(3, LAMBDA j : Step(j + 1))])))
----------------------------------------------------------------------------
\* every point of the chosen axes is drawn once, in ascending order, and the curve closes
Drawn == (ready /\ Known) =>
  /\ kind = "line" => LET l == TLCEval(LinePts) n == p[x[1]].nf IN
       /\ Cardinality({l[i][1] : i \in 1..n}) = n /\ l[n + 1][1] = l[1][1]
       /\ \A i \in 1..n : l[i + 1][2][x[1]] = l[i][2][x[1]] + 1
  /\ kind = "mesh" => LET l == TLCEval(MeshPts) IN
       Cardinality({l[i][j][1] : i \in DOMAIN l, j \in DOMAIN l[1]}) = p[x[1]].nf * p[x[2]].nf
  /\ kind = "film" => LET l == TLCEval(FilmPts) IN
       {l[t][i][j][1] : t \in DOMAIN l, i \in DOMAIN l[1], j \in DOMAIN l[1][1]} = 0..DN - 1
\* the shortest way is never longer than half way round, and ends where the plain step does
Shortest == (ready /\ kind = "path") => \A j \in 1..3 : \A a \in 1..ND :
  /\ Mod(Step(j)[a] - (On(j)[a] - On(j + 1)[a]), p[a].nf) = 0
  /\ (v = <<1>> => 2 * Abs(Step(j)[a]) <= p[a].nf)
=============================================================================
