---------------------------- MODULE Trajectories ----------------------------
(* What is averaged from states and from trajectories.                     *)
(*  mean   expectation values of states: of exp(2 pi i sum_a d_a x_a / L_a),*)
(*         of the position and of the wavevector along an axis             *)
(*  walk   a state localised at a position that hops around the ring, by   *)
(*         less than half of it at a time: the angle gives the position in *)
(*         the cell, and following the hops gives the distance covered     *)
(*  lag    positions recorded at even times: averages over all pairs of    *)
(*         records a given lag apart                                       *)
(*  occ    the occupation of the eigenstates of a hamiltonian              *)
EXTENDS Wavepackets
TG1 == {<<a>> : a \in {1, 2, 3, 4, 6}}
TG2 == {<<a, b>> \in {1, 2, 3, 4, 6} \X {1, 2, 3, 4, 6} : a * b <= MaxN}
TG3 == {<<2, 3, 2>>, <<3, 1, 2>>}
Hop(n) == {h \in (-n)..n : 2 * Abs(h) < n}
Hops(n) == IF n < 7 THEN Hop(n) ELSE IF n = 7 THEN {-3, -2, 0, 1, 3} ELSE {-5, -4, 0, 1, 5}
HashU == 37 * SumSeq([i \in 1..5 |-> (2 * i + 1) * u[i] * (u[i] + i)]) + 101 * SumSeq([i \in 1..5 |-> (131 * i * i + 17 * i) * u[i]])
InitT ==
  /\ ready = FALSE
  /\ \/ /\ kind = "mean" /\ u = <<>> /\ v = <<>>
        /\ \E s \in TG1 \cup TG2 \cup TG3 :
             /\ p \in Stack(s, AnyOf) /\ (Len(s) > 1 => Mod(Hash(p) + Seed, (IF Len(s) = 2 THEN 5 ELSE 97) * Per) = 0)
             /\ x \in [DOMAIN s -> {0, 1, 2, -1}]
             /\ Mod(Hash(p) + SumSeq([a \in DOMAIN s |-> (a + 1) * x[a]]) + Seed, IF Len(s) = 1 THEN 1 ELSE IF Len(s) = 2 THEN 3 ELSE 7) = 0
        /\ q \in {<<m>> : m \in 1..3}
     \* q: the grid of which the walk goes around axis v; along the others the state stands somewhere else each time
     \/ /\ kind = "walk"
        /\ \E n \in {3, 4, 6, 7, 12} : /\ p = <<n>>
             /\ u \in [1..5 -> Hops(n)]
             /\ Mod(HashU + Seed, (IF n < 6 THEN 1 ELSE IF n < 12 THEN 53 ELSE 113) * Per) = 0
             /\ x \in {Mod(HashU \div 3, n), n - 1}
             /\ q = <<(<<n>>), (<<n, 4>>), (<<2, n>>), (<<3, n, 2>>), (<<2, 2, n>>)>>[1 + Mod((HashU \div 7) + x, 5)]
             /\ v = (IF q \in {<<n>>, <<n, 4>>} THEN 1 ELSE IF q \in {<<2, n>>, <<3, n, 2>>} THEN 2 ELSE 3)
     \/ /\ kind = "lag" /\ p = <<>> /\ q = <<>> /\ v = <<>>
        /\ \E m \in 1..2, n \in 1..6 : u \in {[r \in 1..m |-> [t \in 1..n |-> Mod(5 * t * t + 3 * r * t + w * r * t + w * w + Seed, 9) - 4]] : w \in 0..12}
        /\ x \in {1, 2, 5}
     \/ /\ kind = "occ" /\ v = <<>> /\ x = 0
        /\ p \in {<<n>> : n \in {1, 2, 3, 4, 6}} /\ u \in {<<m>> : m \in 1..3}
        /\ q \in [1..p[1] -> {-2, 0, 1, 3, 4, 7}] /\ (\A a, b \in 1..p[1] : q[a] = q[b] => a = b)
        /\ Mod(SumSeq([a \in DOMAIN q |-> (2 * a + 1) * q[a] * q[a]]) + u[1] + Seed, IF p[1] < 3 THEN 1 ELSE IF p[1] < 6 THEN 7 ELSE 23) = 0
----------------------------------------------------------------------------
TN == NFOf(p)
TState(i) == RData(Seed + 3 * i + Hash(p), NOf(p))
TCol(d) == RUnflat(d, Len(d), 1)
InX(i) == RFlatten(RMM(Cv(FX(p), p), TCol(TState(i))))
InK(i) == RFlatten(RMM(Cv(FK(p), p), TCol(TState(i))))
Weighted(w, F(_)) == RSumTo(Len(w), LAMBDA f : RMul(F(f), RMul(RConj(w[f + 1]), w[f + 1])))
Turn(xx, f) == LET d == Digits(FShape(p), f) IN RW(SumSeq([a \in DOMAIN p |-> xx[a] * d[a] * (12 \div p[a].nf)]))
MeanTurn(i) == LET w == TLCEval(InX(i)) IN Weighted(w, LAMBDA f : Turn(x, f))
AxisTurn(i, a) == LET w == TLCEval(InX(i)) IN Weighted(w, LAMBDA f : Turn([b \in DOMAIN p |-> IF b = a THEN 1 ELSE 0], f))
MeanX(i, a) == LET w == TLCEval(InX(i)) IN Weighted(w, LAMBDA f : RInt(Digits(FShape(p), f)[a]))
MeanK(i, a) == LET w == TLCEval(InK(i)) IN Weighted(w, LAMBDA f : RInt(Low(p[a].nf)[Digits(FShape(p), f)[a] + 1]))
\* ---- walks: in units of the spacing; the first position is the one nearest zero (half way counts up)
Centre(i, n) == IF 2 * i > n THEN i - n ELSE i
RECURSIVE Gone(_)
Gone(j) == IF j = 0 THEN 0 ELSE Gone(j - 1) + u[j]
Where == Arr(6, LAMBDA j : Mod(x + Gone(j), p[1]))
Covered == Arr(6, LAMBDA j : Centre(x, p[1]) + Gone(j))
Aside(a, j) == Mod(j * j + a * j + Seed, q[a])
Spot(j) == Flat(q, [a \in DOMAIN q |-> IF a = v THEN Where[j + 1] ELSE Aside(a, j)])
Sq(c, t) == SumTo(Len(c) - t, LAMBDA i : (c[i + t + 1] - c[i + 1]) * (c[i + t + 1] - c[i + 1]))
\* ---- lags
T == Len(u[1])
SumLag(r, t, F(_, _)) == SumTo(T - t, LAMBDA i : F(u[r][i + t + 1], u[r][i + 1]))
Squares == [r \in DOMAIN u |-> Arr(T, LAMBDA t : SumLag(r, t, LAMBDA a, b : (a - b) * (a - b)))]
Moves == [r \in DOMAIN u |-> Arr(T, LAMBDA t : SumLag(r, t, LAMBDA a, b : a - b))]
\* moves, each weighted by a number recorded at its start
Weight(r, i) == 1 + Mod(3 * i * i + r + x, 4)
Pulled == [r \in DOMAIN u |-> Arr(T, LAMBDA t : SumTo(T - t, LAMBDA i : (u[r][i + t + 1] - u[r][i + 1]) * Weight(r, i)))]
Scatter == [r \in DOMAIN u |-> Arr(T, LAMBDA t : RSumTo(T - t, LAMBDA i : RW(-(x * (u[r][i + t + 1] - u[r][i + 1])))))]
\* ---- occupations: eigenvectors w^(jk) / sqrt n, energies q
Vec == RMat(p[1], p[1], LAMBDA j, k : RW(j * k * (12 \div p[1])))       \* column k
Ham == RMM(RMM(Vec, RMat(p[1], p[1], LAMBDA j, k : IF j = k THEN RInt(q[j + 1]) ELSE R0)), RAdj(Vec))
OState(i) == RData(Seed + 3 * i + p[1], p[1])
OrderOf(k) == Cardinality({l \in 1..p[1] : q[l] < q[k]})
ByOrder == LET f == [k \in 1..p[1] |-> CHOOSE l \in 1..p[1] : OrderOf(l) = k - 1] IN f
Amp(i) == RFlatten(RMM(RAdj(Vec), TCol(OState(i))))
Occ(i) == LET w == TLCEval(Amp(i)) f == ByOrder IN [k \in 1..p[1] |-> RMul(RConj(w[f[k]]), w[f[k]])]

\* m squared times the square of the spread of the m records at each time
Spreads == LET m == Len(u) IN [i \in 1..T |->
   m * SumSeq([r \in 1..m |-> u[r][i] * u[r][i]]) - SumSeq([r \in 1..m |-> u[r][i]]) * SumSeq([r \in 1..m |-> u[r][i]])]
\* one record, or records that agree, have no spread; it is a sum over the pairs
Agreed == (ready /\ kind = "lag") => \A i \in 1..T :
  2 * Spreads[i] = SumSeq([r \in DOMAIN u |-> SumSeq([z \in DOMAIN u |-> (u[r][i] - u[z][i]) * (u[r][i] - u[z][i])])])

EmitT == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, x |-> x, u |-> u] @@
  (CASE kind = "mean" -> [data |-> Arr(q[1], TState), norm |-> Arr(q[1], LAMBDA i : Norm2(InX(i))),
            turn |-> Arr(q[1], MeanTurn), turns |-> [a \in DOMAIN p |-> Arr(q[1], LAMBDA i : AxisTurn(i, a))],
            mx |-> [a \in DOMAIN p |-> Arr(q[1], LAMBDA i : MeanX(i, a))], mk |-> [a \in DOMAIN p |-> Arr(q[1], LAMBDA i : MeanK(i, a))],
            sx |-> ScaleS(FX(p), p), sk |-> ScaleS(FK(p), p)]
    [] kind = "walk" -> [at |-> Arr(6, Spot), axis |-> v - 1, moved |-> LET c == TLCEval(Covered) IN Arr(6, LAMBDA t : SumTo(6 - t, LAMBDA i : c[i + t + 1] - c[i + 1])), covered |-> Covered, squares |-> LET c == TLCEval(Covered) IN Arr(6, LAMBDA t : Sq(c, t)),
            scatter |-> IF 12 % p[1] # 0 THEN <<>> ELSE LET c == TLCEval(Covered) IN
               Arr(6, LAMBDA t : RSumTo(6 - t, LAMBDA i : RW(-((12 \div p[1]) * (c[i + t + 1] - c[i + 1])))))]
    [] kind = "lag" -> [squares |-> Squares, moves |-> Moves, pulled |-> Pulled, weight |-> [r \in DOMAIN u |-> Arr(T, LAMBDA i : Weight(r, i))], scatter |-> Scatter, spreads |-> Spreads]
    [] kind = "occ" -> [ham |-> Ham, data |-> Arr(u[1], OState), energies |-> [k \in 1..p[1] |-> q[ByOrder[k]] - q[ByOrder[1]]], occ |-> Arr(u[1], Occ)])))
----------------------------------------------------------------------------
\* the turn of no direction is the norm; turns are never larger than the norm (up to a phase they are when localised)
Turned == (ready /\ kind = "mean") => \A i \in 0..q[1] - 1 :
  /\ (\A a \in DOMAIN p : Mod(x[a], p[a].nf) = 0) => MeanTurn(i) = Norm2(InX(i))
  /\ \A a \in DOMAIN p : p[a].nf = 1 => MeanX(i, a) = R0 /\ MeanK(i, a) = R0 /\ AxisTurn(i, a) = Norm2(InX(i))
\* following the hops agrees with the position in the cell
Followed == (ready /\ kind = "walk") => \A j \in 1..6 : Mod(Covered[j], p[1]) = Where[j] /\ Digits(q, Spot(j - 1))[v] = Where[j] /\ q[v] = p[1] /\ (j > 1 => Covered[j] - Covered[j - 1] = u[j - 1])
\* nothing moves in no time; records that stand still do not move at all; drift of the whole is the sum of steps
NoLag == (ready /\ kind = "lag") => \A r \in DOMAIN u :
  /\ Squares[r][1] = 0 /\ Moves[r][1] = 0 /\ Scatter[r][1] = RInt(T)
  /\ (T > 1 => Moves[r][T] = u[r][T] - u[r][1] /\ Squares[r][T] = (u[r][T] - u[r][1]) * (u[r][T] - u[r][1]))
\* the eigenvectors are eigenvectors and occupations add to the norm
Solved == (ready /\ kind = "occ") =>
  /\ RMM(Ham, Vec) = RMat(p[1], p[1], LAMBDA j, k : RScale(p[1] * q[k + 1], Vec[j + 1][k + 1]))
  /\ \A i \in 0..u[1] - 1 : RSumTo(p[1], LAMBDA k : Occ(i)[k + 1]) = RScale(p[1], Norm2(OState(i)))
=============================================================================
