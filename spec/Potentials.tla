----------------------------- MODULE Potentials -----------------------------
(* Potentials on a grid of a periodic cell.                                *)
(*  fn     the function a potential stands for: sum_k V_k exp(i k.x)/sqrt n *)
(*         over the wavevectors nearest zero, evaluated at x_a / 12 of the *)
(*         cell, and its derivative i k V_k                                *)
(*  even   a potential sampled at uneven heights, put on an even grid:     *)
(*         Fourier interpolated in the plane, a cubic spline in the height *)
(*  cut    the logarithmic cutoff of large values and its inverse: with    *)
(*         V = c (e^q - 1)^(1/n) - o the cut value is c q^(1/n) - o        *)
(*  norm   energies relative to the lowest                                 *)
(*  sites  the high symmetry points of the (111) and (100) surfaces        *)
(*  path   the lowest point above each point of a path                     *)
(*  points positions at which an irregular potential is known              *)
EXTENDS Wavepackets
PSizes == {1, 2, 3, 4, 6}
PG1 == {<<a>> : a \in PSizes}
PG2 == {<<a, b>> \in PSizes \X PSizes : a * b <= MaxN}
PG3 == {<<a, b, c>> \in PSizes \X PSizes \X PSizes : a * b * c <= MaxN}
Heights == {<<0, 1, 2, 3>>, <<-1, 0, 2, 3, 5>>, <<1, 3, 4, 5, 8, 9>>}
FineFor(n) == {m \in {1, 2, 3, 4, 6, 12} : (n % 2 = 1 \/ m >= n) /\ 12 % n = 0}
XH(xx) == SumSeq([a \in DOMAIN xx |-> (2 * a + 1) * xx[a]])
InitP ==
  /\ ready = FALSE
  /\ \/ /\ kind = "fn" /\ q = <<>> /\ u = <<>> /\ v = <<>>
        /\ \E s \in PG1 \cup PG2 \cup PG3 :
             /\ (Len(s) = 3 => Mod(XH(s) + Seed, 3 * Per) = 0)
             /\ p \in Stack(s, AnyOf)
             /\ (Len(s) > 1 => Mod(Hash(p) + Seed, 5 * Len(s) * Per) = 0)
             /\ x \in [DOMAIN s -> {0, 1, 4, -3, 12}]
             /\ Mod(Hash(p) + XH(x) + Seed, IF Len(s) = 1 THEN 1 ELSE IF Len(s) = 2 THEN 3 ELSE 17) = 0
     \/ /\ kind = "even" /\ p \in {<<a, b>> \in {1, 2, 3, 4} \X {1, 2, 3, 4} : TRUE} /\ v = <<>>
        /\ \E f0 \in FineFor(p[1]), f1 \in FineFor(p[2]) : q \in {<<f0, f1, m>> : m \in 2..5}
        /\ q[1] * q[2] <= 3 * MaxN
        /\ u \in Heights /\ x \in 0..3 /\ Mod(XH(p) + XH(q) + XH(u) + 3 * x + Seed, 23 * Per) = 0
     \/ /\ kind = "cut" /\ q = <<>> /\ u = <<>> /\ v = <<>>
        /\ p \in (1..3) \X (1..3) \X {-2, 0, 1, 3} \* c, n, o
        /\ x \in {<<0, 1, 2>>, <<3, 0, 1>>, <<1, 1>>, <<5>>, <<-1, -2, 1>>}
        /\ (p[2] > 1 => \A a \in DOMAIN x : x[a] >= 0)
     \/ /\ kind = "norm" /\ p \in PG1 \cup PG2 \cup {s \in PG3 : ProdSeq(s) <= 12} /\ q = <<>> /\ u = <<>> /\ v = <<>> /\ x = 0
     \/ /\ kind = "sites" /\ q = <<>> /\ u = <<>> /\ v = <<>>
        /\ p \in {2, 6, 7, 12, 14, 18, 25} \X {3, 6, 8, 12, 15, 24} /\ x \in {<<0, 0>>, <<3, -2>>, <<7, 1>>}
     \/ /\ kind = "path" /\ q = <<>> /\ v = <<>>
        /\ p \in {s \in PG2 \cup PG3 : ProdSeq(s) <= 24 /\ Mod(XH(s) + Seed, 3) = 0}
        /\ x \in 1..Len(p)                          \* the axis minimised over
        /\ u \in [1..(Len(p) - 1) -> {<<0, 1, 2, 3>>, <<0, -1, 4, 0>>, <<5, 5, 2, 7>>}]
     \/ /\ kind = "points" /\ q = <<>> /\ v = <<>> /\ x = 0
        /\ p \in [1..4 -> 0..2] /\ u \in [1..4 -> 0..2] /\ Mod(XH(p) + 3 * XH(u) + Seed, 31) = 0
----------------------------------------------------------------------------
NK == NFOf(p)
Raw == RData(Seed + Hash(p), NOf(p))
Col(d) == RUnflat(d, Len(d), 1)
VK == RFlatten(RMM(Cv(FK(p), p), Col(Raw)))
VX == RFlatten(RMM(Cv(FX(p), p), Col(Raw)))
KOf(f) == LET d == Digits(FShape(p), f) IN [a \in DOMAIN p |-> Low(p[a].nf)[d[a] + 1]]
At12(xx) == LET c == TLCEval(VK) IN RSumTo(NK, LAMBDA f : RMul(RW(SumSeq([a \in DOMAIN p |-> KOf(f)[a] * xx[a]])), c[f + 1]))
Deriv(a) == LET c == TLCEval(VK) IN Arr(NK, LAMBDA f : RMul(RI, RScale(KOf(f)[a], c[f + 1])))
\* ---- even grids
HCoef(i, j, d) == IF d > x THEN 0 ELSE Mod(7 * i + 5 * j * j + 3 * d * d + Seed + (i + 2 * j) * d, 5) - 2
RECURSIVE Pow(_, _)
Pow(y, k) == IF k = 0 THEN 1 ELSE y * Pow(y, k - 1)
Val(i, j, num, den) == SumTo(4, LAMBDA d : HCoef(i, j, d) * Pow(num, d) * Pow(den, 3 - d))
\* sample m of a ring of a contributes to point j of a ring of b (times a): through
\* the wavevectors both hold; where only half of them are stored, all but the
\* first (and the last that is its own partner) count twice
KLow(a, b) == LET lo == -(Min2(a, b) \div 2) IN Arr(Min2(a, b), LAMBDA i : lo + i)
PEx(a, b, j, m, k) == k * ((j * (12 \div b)) - (m * (12 \div a)))
KerC(a, b, j, m) == LET l == KLow(a, b) IN RSumTo(Len(l), LAMBDA k : RW(PEx(a, b, j, m, l[k + 1])))
Twice(b, k) == IF k = 0 \/ 2 * k = b THEN 1 ELSE 2
KerR(a, b, j, m) == RSumTo(Min2(a \div 2, b \div 2) + 1, LAMBDA k : RScale(Twice(b, k), RW(PEx(a, b, j, m, k))))
EvenNum(h) == u[1] * (q[3] - 1) + h * (u[Len(u)] - u[1])
\* twice the value, times (sizes of the plane) (steps)^3
Even2(J0, J1, h) ==
  LET r == RSumTo(p[1], LAMBDA i : LET ki == KerC(p[1], q[1], J0, i) IN
             RSumTo(p[2], LAMBDA j : RScale(Val(i, j, EvenNum(h), q[3] - 1), RMul(ki, KerR(p[2], q[2], J1, j)))))
  IN RAdd(r, RConj(r))
EvenGrid == Arr(q[1], LAMBDA a : Arr(q[2], LAMBDA b : Arr(q[3], LAMBDA h : Even2(a, b, h))))
Given == Arr(p[1], LAMBDA i : Arr(p[2], LAMBDA j : [h \in DOMAIN u |-> Val(i, j, u[h], 1)]))
\* ---- lowest points
PotE(i) == Datum(Seed + ProdSeq(p), i)[1]
NData == Arr(ProdSeq(p), PotE)
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], MinSeq(Tail(s)))
\* ---- sites: thirds, sixths and halves of the cell along each axis, in twelfths
Site(f, a) == ((f * p[a]) \div 12) + x[a]
\* ---- paths
Full(j, h) == [a \in 1..Len(p) |-> IF a < x THEN Mod(u[a][j], p[a]) ELSE IF a = x THEN h ELSE Mod(u[a - 1][j], p[a])]
HeightOf(j) == LET col == TLCEval(Arr(p[x], LAMBDA h : PotE(Flat(p, Full(j, h))))) IN
  CHOOSE h \in 0..p[x] - 1 : /\ col[h + 1] = MinSeq(col) /\ \A g \in 0..h - 1 : col[g + 1] # MinSeq(col)
Path == [a \in 1..Len(p) |-> Arr(4, LAMBDA j : IF a = x THEN HeightOf(j + 1) ELSE u[IF a < x THEN a ELSE a - 1][j + 1])]
\* ---- points
Known == {<<p[a], u[a]>> : a \in DOMAIN p}

EmitP == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, x |-> x, u |-> u] @@
  (CASE kind = "fn" -> [data |-> Raw, vk |-> VK, at |-> At12(x), deriv |-> [a \in DOMAIN p |-> Deriv(a)],
                        sk |-> ScaleS(FK(p), p), sx |-> ScaleS(FX(p), p), vx |-> VX, nk |-> NK]
    [] kind = "even" -> [data |-> Given, even |-> EvenGrid, den |-> 2 * p[1] * p[2] * Pow(q[3] - 1, 3)]
    [] kind = "norm" -> [data |-> NData, norm |-> [i \in DOMAIN NData |-> NData[i] - MinSeq(NData)]]
    [] kind = "sites" -> [s111 |-> [top |-> <<Site(8, 1), Site(8, 2)>>, bridge |-> <<Site(2, 1), Site(2, 2)>>,
                                     fcc |-> <<Site(0, 1), Site(0, 2)>>, hcp |-> <<Site(4, 1), Site(4, 2)>>],
                          s100 |-> [hollow |-> <<Site(0, 1), Site(0, 2)>>, bridge |-> <<Site(6, 1), Site(0, 2)>>, top |-> <<Site(6, 1), Site(6, 2)>>]]
    [] kind = "path" -> [data |-> NData, path |-> Path]
    [] kind = "points" -> [known |-> Known, n |-> Cardinality(Known)]
    [] OTHER -> [none |-> 0])))
----------------------------------------------------------------------------
\* at the points of the grid the function has the values of the position basis, and it is periodic
OnGrid == (ready /\ kind = "fn") =>
  /\ \A a \in DOMAIN p : At12(x) = At12([x EXCEPT ![a] = x[a] + 12])
  /\ (\A a \in DOMAIN p : Complete(p[a]) /\ p[a].sp = "x" /\ p[a].cls = "low") =>
       \A f \in 0..NK - 1 : At12([a \in DOMAIN p |-> Digits(FShape(p), f)[a] * (12 \div p[a].nf)]) = RScale(NK, Raw[f + 1])
\* no force from a constant: the zero wavevector has no derivative, opposite ones opposite factors
NoForce == (ready /\ kind = "fn") => \A a \in DOMAIN p : Deriv(a)[1] = R0
\* samples of the plane and the ends of the heights are kept when the grid is refined
Ends == (ready /\ kind = "even" /\ q[1] % p[1] = 0 /\ q[2] % p[2] = 0 /\ p[1] % 2 = 1 /\ p[2] % 2 = 1) =>
  \A i \in 0..p[1] - 1, j \in 0..p[2] - 1 :
    /\ Even2(i * (q[1] \div p[1]), j * (q[2] \div p[2]), 0) = RInt(2 * p[1] * p[2] * Pow(q[3] - 1, 3) * Given[i + 1][j + 1][1])
    /\ Even2(i * (q[1] \div p[1]), j * (q[2] \div p[2]), q[3] - 1) = RInt(2 * p[1] * p[2] * Pow(q[3] - 1, 3) * Given[i + 1][j + 1][Len(u)])
Lowest == (ready /\ kind = "path") => \A j \in 1..4 : LET h == HeightOf(j) IN
  \A g \in 0..p[x] - 1 : PotE(Flat(p, Full(j, h))) <= PotE(Flat(p, Full(j, g)))
=============================================================================
