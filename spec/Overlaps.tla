----------------------------- MODULE Overlaps ------------------------------
(* Overlaps of states on a grid: O(x)[i, j] = conj(psi_i(x)) psi_j(x - d)   *)
(* with the grid periodic along each axis; |psi_i(x)|^2 are probabilities.  *)
(* Its transform at a wavevector: sum over x of O(x) exp(i k . x), x being  *)
(* the image nearest to the origin along the first two axes.  Wavevectors   *)
(* are m_a / 12 of the reciprocal vector of the grid spacing, so that the   *)
(* phase of point x is w ^ (x . m), w = exp(i pi / 6).                      *)
EXTENDS Wavepackets
CONSTANTS MaxG
Sizes == {1, 2, 3, 4, 6}
Grid1 == {<<a>> : a \in Sizes}
Grid2 == {<<a, b>> \in Sizes \X Sizes : a * b <= MaxG}
Grid3 == {<<a, b, c>> \in Sizes \X Sizes \X Sizes : a * b * c <= MaxG}
GH(s) == SumSeq([a \in DOMAIN s |-> (2 * a + 1) * s[a]])
XL(nf) == {LeafLow("x", nf, nf), LeafEven("x", nf, 1, 0), LeafLow("k", nf, nf)}
InitO ==
  /\ ready = FALSE
  /\ \/ /\ kind = "list" /\ u = <<>>
        /\ \E s \in Grid1 \cup Grid2 \cup Grid3 :
             /\ (Len(s) = 3 => Mod(GH(s) + Seed, 5) = 0)
             /\ p \in Stack(s, XL)
             /\ (Len(s) > 1 => Mod(Hash(p) + Seed, 5 * Len(s)) = 0)
             /\ x \in [DOMAIN s -> {0, 1, -2, 5}]                       \* d
             /\ Mod(Hash(p) + SumSeq([a \in DOMAIN s |-> (a + 1) * x[a]]) + Seed, IF Len(s) = 1 THEN 1 ELSE IF Len(s) = 2 THEN 3 ELSE 7) = 0
        /\ q \in {<<LeafLow("x", m, m)>> : m \in 1..3} /\ v = <<>>       \* numbers of states
     \/ /\ kind = "transform" /\ u = <<>> /\ v = <<>>
        /\ \E s \in Grid2 \cup Grid3 : /\ (Len(s) = 3 => Mod(GH(s) + Seed, 2 * Per) = 0)
             /\ p = [a \in DOMAIN s |-> LeafLow("x", s[a], s[a])]
             /\ x \in [DOMAIN s -> {0, 1, -3, 4, 12}]
             /\ Mod(Hash(p) + SumSeq([a \in DOMAIN s |-> (a + 1) * x[a]]) + Seed, 5 * Len(s) - 5) = 0
        /\ q = <<>>
     \/ /\ kind = "packets" /\ x = 0
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 3 ELSE 41) * Per) = 0)
             /\ p = [a \in DOMAIN z |-> LeafLow("k", z[a][1], z[a][1])] /\ q \in Stack(Ss(z), AnyOf)
             /\ (Len(z) > 1 => Mod(Hash(q) + Seed, 11 * Len(z)) = 0)
        /\ u = FK(p) /\ v = FK(q)
     \/ /\ kind = "name" /\ p = <<>> /\ q = <<>> /\ v = <<>>
        /\ u \in (0..2) \X (0..2)
        /\ x \in {<<a, b, c, d>> \in (-2..2) \X (-2..2) \X (-2..2) \X (-2..2) : Mod(a + 2 * b + 3 * c + 5 * d + u[1] + u[2] + Seed, 3) = 0
                   \/ \A e \in {a, b, c, d} : e \in -1..1}
----------------------------------------------------------------------------
M == NOf(q)
G == NOf(p)
Psi(i) == RData(Seed + 3 * i + Hash(p), G)
Moved(f) == LET d == Digits(Shape(p), f) IN Flat(Shape(p), [a \in DOMAIN p |-> Mod(d[a] - x[a], p[a].n)])
OverlapAt(f, i, j) == RMul(RConj(Psi(i)[f + 1]), Psi(j)[Moved(f) + 1])
Ov == LET ps == TLCEval(Arr(M, Psi)) mv == TLCEval(Arr(G, Moved)) IN
  TLCEval(Arr(G, LAMBDA f : Arr(M, LAMBDA i : Arr(M, LAMBDA j : RMul(RConj(ps[i + 1][f + 1]), ps[j + 1][mv[f + 1] + 1])))))
\* the image nearest to the origin
Near(i, n) == Mod(i + (n \div 2), n) - (n \div 2)
Image(f) == LET d == Digits(Shape(p), f) IN [a \in DOMAIN p |-> IF a <= 2 THEN Near(d[a], p[a].n) ELSE d[a]]
Phase(f) == LET d == Image(f) IN SumSeq([a \in DOMAIN p |-> d[a] * x[a]])
O1 == RData(Seed + Hash(p), G)
Transform == LET o == TLCEval(O1) IN RSumTo(G, LAMBDA f : RMul(RW(Phase(f)), o[f + 1]))
\* summed over the last axis, at wavevectors without a component along it
NL == p[Len(p)].n
Column(f) == LET o == TLCEval(O1) IN RSumTo(NL, LAMBDA c : o[(f * NL) + c + 1])
ColPhase(f) == LET d == Image(f * NL) IN SumSeq([a \in 1..2 |-> d[a] * x[a]])
Abs2(r) == (r[1] * r[1]) + (r[4] * r[4])             \* of a Gaussian integer
Cols == Arr(G \div NL, Column)
FlatOf(S) == LET c == TLCEval(Cols) IN RSumTo(G \div NL, LAMBDA f : IF f \in S THEN RMul(RW(ColPhase(f)), c[f + 1]) ELSE R0)
\* the n largest columns, when no others are as large
Larger(c, f) == Cardinality({g \in 0..(G \div NL) - 1 : Abs2(c[g + 1]) > Abs2(c[f + 1])})
Kept2(n) == LET c == TLCEval(Cols) IN {f \in 0..(G \div NL) - 1 : Larger(c, f) < n}
Counts == {n \in 1..(G \div NL) : Cardinality(Kept2(n)) = n}
\* unfurled packets at the positions of all cells
UX(b) == LET c == TLCEval(Unfurled(To(b, FK(p), FK(q)))) IN TLCEval(Arr(ProdSeq(LS), LAMBDA X : Pos(c, X)))
\* names of stored overlaps
Small(o) == \A a \in DOMAIN o : o[a] \in -1..1
Named(i, j, o) == Small(o) /\ i <= 1 /\ j <= 1
Key(i, j, o) == <<i, j, [a \in DOMAIN o |-> Mod(o[a], 3)]>>

EmitO == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, x |-> x, u |-> u] @@
  (CASE kind = "list" -> [psi |-> Arr(M, Psi), o |-> Ov]
    [] kind = "transform" -> [o |-> O1, t |-> Transform, flat |-> FlatOf(0..(G \div NL) - 1),
          some |-> [n \in 1..(G \div NL) |-> IF n \in Counts THEN FlatOf(Kept2(n)) ELSE <<>>]]
    [] kind = "packets" -> [data |-> Arr(NB, LAMBDA b : RFlatten(D(b))), eig |-> Arr(NB, E),
          s |-> ScaleS(FK(p), p) * ScaleS(FK(q), q), ux |-> Arr(NB, UX)]
    [] kind = "name" -> [named |-> Named(u[1], u[2], x), key |-> Key(u[1], u[2], x)])))
----------------------------------------------------------------------------
\* the trace of the overlap is the norm, and overlaps without a shift are hermitian at every point
Normed == (ready /\ kind = "list") => LET o == TLCEval(Ov) ps == TLCEval(Arr(M, Psi)) IN
  /\ (\A a \in DOMAIN x : Mod(x[a], p[a].n) = 0) =>
       /\ \A f \in 1..G : \A i, j \in 1..M : o[f][i][j] = RConj(o[f][j][i])
       /\ \A i \in 1..M : RSumTo(G, LAMBDA f : o[f + 1][i][i]) = RSumTo(G, LAMBDA f : RMul(RConj(ps[i][f + 1]), ps[i][f + 1]))
  \* moving is a permutation: what is moved is not lost
  /\ {Moved(f) : f \in 0..G - 1} = 0..G - 1
\* the transform at zero is the sum, and at a vector of the reciprocal lattice it does not depend on the image
Summed == (ready /\ kind = "transform") =>
  /\ (\A a \in DOMAIN x : x[a] = 0) => Transform = RSumTo(G, LAMBDA f : O1[f + 1])
  /\ (\A a \in DOMAIN x : Mod(x[a] * p[a].n, 12) = 0) =>
       Transform = LET o == TLCEval(O1) IN RSumTo(G, LAMBDA f : LET d == Digits(Shape(p), f) IN
                     RMul(RW(SumSeq([a \in DOMAIN p |-> d[a] * x[a]])), o[f + 1]))
  /\ (Len(p) = 3 /\ x[3] = 0) => FlatOf(0..(G \div NL) - 1) = Transform
\* unfurled packets keep the norm of the periodic parts
Packed == (ready /\ kind = "packets" /\ ProdSeq(LS) <= 12) => LET w == TLCEval(UX(0)) d == TLCEval(To(0, FK(p), FK(q))) IN
  RSumTo(ProdSeq(LS), LAMBDA X : RMul(RConj(w[X + 1]), w[X + 1]))
    = RScale(ProdSeq(LS), RSumTo(PL, LAMBDA l : RSumTo(Len(d[1]), LAMBDA s : RMul(RConj(d[l + 1][s + 1]), d[l + 1][s + 1]))))
\* no two stored overlaps share a name
Injective == (ready /\ kind = "name") => (Named(u[1], u[2], x) =>
  \A i, j \in 0..1 : \A o \in (-1..1) \X (-1..1) \X (-1..1) \X (-1..1) : Key(i, j, o) = Key(u[1], u[2], x) => (i = u[1] /\ j = u[2] /\ o = x))
=============================================================================
