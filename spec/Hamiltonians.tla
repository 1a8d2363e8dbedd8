---------------------------- MODULE Hamiltonians ----------------------------
(* Hamiltonians of a particle on a lattice. In a basis p of the grid with   *)
(* lattice vectors D, a potential with coefficients c in p has the values   *)
(* V = C(x, p) c at the grid points and the operator C(p, x) diag(V) C(x, p)*)
(* the kinetic energy at momentum n is that of sum_a (n_a + f_a / 4) K_a,   *)
(* with f the bloch fraction in quarters, in units of (2 pi hbar)^2 / 2 m   *)
(* over (4 det)^2: C(p, k) diag(E) C(k, p).                                 *)
EXTENDS R12, Json
CONSTANTS Seed, Per, MaxN
VARIABLES kind, p, D, f, x, ready
vars == <<kind, p, D, f, x>>

Lats(k) == CASE k = 1 -> {<< <<3>> >>, << <<-2>> >>}
  [] k = 2 -> {<< <<2, 0>>, <<0, 3>> >>, << <<2, 1>>, <<-1, 2>> >>, << <<0, 2>>, <<3, 1>> >>}
  [] k = 3 -> {<< <<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 3>> >>, << <<1, 1, 0>>, <<0, 1, 1>>, <<1, 0, 2>> >>, << <<0, 0, 2>>, <<3, 0, 1>>, <<1, 2, 0>> >>}
Wide == {<<12>>, <<6, 3>>, <<4, 4>>, <<12, 2>>, <<3, 2, 3>>, <<2, 4, 2>>}
Sizes == {1, 2, 3, 4, 6}
Leaves(nf) ==
  {LeafLow(sp, n, nf) : sp \in {"x", "k"}, n \in {nf, Max2(nf - 1, 1), Max2(nf - 2, 1)}}
  \cup {LeafEven("k", nf \div st, st, of) : st \in {t \in {1, 2, 3} : nf % t = 0}, of \in {0, 1}}
Stacks(s) == CASE Len(s) = 1 -> {<<a>> : a \in Leaves(s[1])}
  [] Len(s) = 2 -> {<<a, b>> : a \in Leaves(s[1]), b \in Leaves(s[2])}
  [] Len(s) = 3 -> {<<a, b, c>> : a \in Leaves(s[1]), b \in Leaves(s[2]), c \in Leaves(s[3])}
Hash(b) == SumSeq([a \in DOMAIN b |-> (2 * a + 1) * (b[a].nf + 2 * b[a].n + 3 * b[a].off + 5 * b[a].step
              + (IF b[a].sp = "x" THEN 0 ELSE 7) + (IF b[a].cls = "low" THEN 0 ELSE 11))])
Grids == {<<a>> : a \in Sizes} \cup {<<a, b>> \in Sizes \X Sizes : a * b <= MaxN}
         \cup {<<a, b, c>> \in Sizes \X Sizes \X Sizes : a * b * c <= MaxN}
Thin(k) == IF k = 1 THEN 1 ELSE IF k = 2 THEN 11 ELSE 173
Dirs == {<<0, 0, 3>>, <<2, 0, 0>>, <<0, -1, 0>>, <<3, 4, 0>>, <<0, 3, -4>>, <<2, 2, 1>>, <<0, 0, -2>>}
Init ==
  /\ ready = FALSE
  /\ \/ /\ kind = "total" /\ x = 0
        /\ \E s \in Grids :
             /\ p \in Stacks(s)
             /\ (Len(s) > 1 => Mod(Hash(p) + Seed, Thin(Len(s)) * Per) = 0)
             /\ D \in Lats(Len(s))
             /\ f \in [1..Len(s) -> {0, 1, -3, 6}]
             /\ Mod(Hash(p) + 3 * D[1][1] + SumSeq([a \in 1..Len(s) |-> (2 * a + 3) * f[a]]) + Seed, IF Len(s) = 1 THEN 2 ELSE IF Len(s) = 2 THEN 5 ELSE 13) = 0
     \* grids well beyond those enumerated
     \/ /\ kind = "total" /\ x = 0
        /\ \E s \in Wide :
             /\ p \in Stacks(s)
             /\ Mod(Hash(p) + Seed, IF Len(s) = 1 THEN 3 ELSE IF Len(s) = 2 THEN 29 ELSE 397) = 0
             /\ D \in Lats(Len(s))
             /\ f \in {[a \in DOMAIN s |-> 0], [a \in DOMAIN s |-> a], [a \in DOMAIN s |-> IF a = 1 THEN -3 ELSE 6]}
             /\ Mod(Hash(p) + 3 * D[1][1] + SumSeq([a \in 1..Len(s) |-> (2 * a + 3) * f[a]]) + Seed, 4) = 0
     \* layers: a stack of layers in z with plane waves in the surface; p holds the grid, x the number of
     \* plane waves and states
     \/ /\ kind = "layers"
        /\ \E s \in {<<2, 2, 3>>, <<4, 2, 2>>, <<4, 6, 2>>, <<2, 4, 4>>, <<1, 4, 4>>, <<6, 4, 1>>} : p = [a \in 1..3 |-> LeafLow("x", s[a], s[a])]
        /\ D \in {<< <<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 3>> >>, << <<2, 1, 0>>, <<-1, 2, 0>>, <<0, 0, 2>> >>, << <<0, 2, 0>>, <<3, 1, 0>>, <<0, 0, 1>> >>}
        /\ f \in {<<0, 0, 0>>, <<1, -3, 2>>, <<-2, 6, 1>>}
        /\ x \in {<<a, b, c>> \in (1..3) \X (1..3) \X (1..3) : c <= p[3].n}
        /\ Mod(Hash(p) + x[1] + 2 * x[2] + 5 * x[3] + f[1] + 3 * D[1][1] + Seed, 3 * Per) = 0
     \* an oscillator along a direction, seen from an origin
     \/ /\ kind = "sho" /\ f = 0
        /\ \E n \in {1, 2, 3, 4, 6} : p = <<LeafLow("x", n, n)>>
        /\ D \in {<<d>> : d \in Dirs}
        /\ x \in {<<0, 0, 0>>, <<1, 2, -2>>, <<-3, 0, 1>>, <<0, -1, 4>>}
Next == ~ready /\ ready' = TRUE /\ UNCHANGED vars
----------------------------------------------------------------------------
ND == Len(p)
N == NFOf(p)
FX == [a \in DOMAIN p |-> LeafLow("x", p[a].nf, p[a].nf)]
FK == [a \in DOMAIN p |-> LeafLow("k", p[a].nf, p[a].nf)]
Cv(b2, b1) == LET m == TLCEval(MatS(12, b2, b1)) IN TLCEval([i \in DOMAIN m |-> TLCEval([j \in DOMAIN m[i] |-> RE(m[i][j])])])
Nx3(i) == (i % 3) + 1
Cof(d) == CASE Len(d) = 1 -> << <<1>> >>
  [] Len(d) = 2 -> << <<d[2][2], -d[2][1]>>, <<-d[1][2], d[1][1]>> >>
  [] Len(d) = 3 -> [i \in 1..3 |-> [j \in 1..3 |-> (d[Nx3(i)][Nx3(j)] * d[Nx3(Nx3(i))][Nx3(Nx3(j))])
                                                 - (d[Nx3(i)][Nx3(Nx3(j))] * d[Nx3(Nx3(i))][Nx3(j)])]]
Det == LET c == Cof(D) IN SumSeq([a \in DOMAIN D |-> D[1][a] * c[1][a]])
\* 4 det times the wavevector over 2 pi, and its squared length
Wave(d, g) == LET c == Cof(D) IN [j \in DOMAIN D |-> SumSeq([a \in DOMAIN D |-> (4 * d[a] + g[a]) * c[a][j]])]
Sq(w) == SumSeq([j \in DOMAIN w |-> w[j] * w[j]])
Momentum(i) == LET d == Digits(Shape(FK), i) IN [a \in DOMAIN p |-> Low(p[a].nf)[d[a] + 1]]
En(i) == Sq(Wave(Momentum(i), f))
Energies == Arr(N, En)
Rows(m, F(_)) == LET a == TLCEval(m) IN TLCEval([i \in 1..Len(a) |-> LET e == TLCEval(F(i - 1)) IN TLCEval([j \in 1..Len(a[1]) |-> RMul(e, a[i][j])])])
Kin == LET c == TLCEval(Cv(FK, p)) IN RMM(RAdj(c), Rows(c, LAMBDA i : RInt(En(i))))                    \* over S(k, p)
C0 == RUnflat(RData(Seed + Hash(p), NOf(p)), NOf(p), 1)
V == RMM(Cv(FX, p), C0)                                                                   \* over sqrt S(x, p)
Pot == LET c == TLCEval(Cv(FX, p)) v == TLCEval(V) IN RMM(RAdj(c), Rows(c, LAMBDA i : v[i + 1][1]))   \* over sqrt S(x, p) S(x, p)
\* the layers: real potential values and, for an oscillator, exact squares of the distances
Real(i) == Mod(7 * i * i + 3 * i + Seed, 9)
\* distances along the direction from minus the origin, times |d|: (d . x + |d|^2 i / n) over n |d|
Dot(a, b) == SumSeq([c \in 1..3 |-> a[c] * b[c]])
ShoNum(i) == (p[1].n * Dot(D[1], x)) + (Dot(D[1], D[1]) * i)
\* n |d| ^ k times the Hermite polynomial k of the distance
RECURSIVE Herm(_, _, _)
Herm(k, a, b2) == CASE k = 0 -> 1 [] k = 1 -> 2 * a [] OTHER -> (2 * a * Herm(k - 1, a, b2)) - (2 * (k - 1) * b2 * Herm(k - 2, a, b2))
ShoDen2 == p[1].n * p[1].n * Dot(D[1], D[1])

Emit == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, D |-> D, f |-> f, x |-> x] @@
  (CASE kind = "total" -> [c |-> [i \in 1..NOf(p) |-> C0[i][1]], pot |-> Pot, kin |-> Kin, energy |-> Energies, det |-> Det,
          sx |-> ScaleS(FX, p), sk |-> ScaleS(FK, p)]
    [] kind = "layers" -> [v |-> Arr(N, Real), energy |-> Energies, det |-> Det]
    [] kind = "sho" -> [num |-> Arr(p[1].n, ShoNum), den2 |-> ShoDen2,
          herm |-> Arr(4, LAMBDA k : Arr(p[1].n, LAMBDA i : Herm(k, ShoNum(i), ShoDen2)))])))
----------------------------------------------------------------------------
\* energies are not negative, and moving the bloch fraction by one is moving the momentum
Shifted == (ready /\ kind \in {"total", "layers"}) => \A i \in 0..N - 1 : \A a \in DOMAIN p :
  /\ En(i) >= 0
  /\ Sq(Wave(Momentum(i), [f EXCEPT ![a] = @ + 4])) = Sq(Wave([Momentum(i) EXCEPT ![a] = @ + 1], f))
  /\ Sq(Wave([b \in DOMAIN p |-> -Momentum(i)[b]], [b \in DOMAIN p |-> -f[b]])) = En(i)
\* the kinetic energy is hermitian, and both keep their trace in complete bases
Herm_ == (ready /\ kind = "total") => LET k == TLCEval(Kin) o == TLCEval(Pot) v == TLCEval(V) IN
  /\ \A i, j \in 1..NOf(p) : k[i][j] = RConj(k[j][i])
  /\ (\A a \in DOMAIN p : p[a].n = p[a].nf) =>
       /\ RSumTo(N, LAMBDA i : k[i + 1][i + 1]) = RInt(ScaleS(FK, p) * SumTo(N, En))
       /\ RSumTo(N, LAMBDA i : o[i + 1][i + 1]) = RScale(ScaleS(FX, p), RSumTo(N, LAMBDA i : v[i + 1][1]))
  \* the potential is diagonal in positions and the kinetic energy in momenta
  /\ \A i, j \in 1..NOf(p) : i # j =>
       /\ (\A a \in DOMAIN p : p[a].sp = "x") => o[i][j] = R0
       /\ (\A a \in DOMAIN p : p[a].sp = "k") => k[i][j] = R0
=============================================================================
