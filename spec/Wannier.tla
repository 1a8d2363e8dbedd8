------------------------------ MODULE Wannier ------------------------------
(* Localized states made from Bloch states (the model of Wavepackets).     *)
(* A localization operator holds for every sample l a matrix O_l: state i  *)
(* is the mixture sum_b O_l[i,b] psi_{l,b} of the bands.  The Wannier      *)
(* state (i, o) is their sum over the samples divided by sqrt(samples),    *)
(* moved by o cells against the axes: sample l gets exp(2 pi i l.o / L).   *)
(* A Hamiltonian sum_l sum_b E_b(l) |l,b><l,b| has the matrix elements of  *)
(* these states.                                                           *)
EXTENDS Wavepackets

Comb(z) == [a \in DOMAIN z |-> LeafLow("k", z[a][1], z[a][1])]
\* surfaces whose two in-plane axes have the same number of points
Twins(z) == Len(z) = 3 /\ z[3][1] = 1 /\ z[1][2] = z[2][2] /\ z[1][2] > 1 /\ Mod(PH(z) + Seed, 2 * Per) = 0
InitW ==
  /\ ready = FALSE
  /\ \/ /\ kind = "loc"
        /\ \E z \in Pairs : Len(z) < 3 /\ (Len(z) = 2 => Mod(PH(z) + Seed, 5) = 0)
             /\ p \in Stack(Ls(z), Ks) /\ q \in Stack(Ss(z), AnyOf)
             /\ Mod(5 * Hash(p) + 3 * Hash(q) + Seed, (IF Len(z) = 1 THEN 2 ELSE 53) * Per) = 0
        /\ x \in [nb : 1..3, nw : 1..3, fam : {"data"}]
     \/ /\ kind = "wannier"
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 3 ELSE 23) * Per) = 0)
             /\ ProdSeq(Ls(z)) <= 8
             /\ p = Comb(z) /\ q \in Stack(Ss(z), AnyOf)
             /\ (Len(z) > 1 => Mod(Hash(q) + Seed, 9 * Len(z)) = 0)
        /\ \/ x \in [nb : 1..2, nw : 1..3, fam : {"data"}]
           \/ x \in [nb : 1..3, nw : {0}, fam : {"unit"}] /\ x.nb <= NFOf(q) /\ 12 % NFOf(q) = 0
              /\ \A a \in DOMAIN q : q[a] = LeafLow("k", q[a].nf, q[a].nf)
     \/ /\ kind = "project"
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 4 ELSE 41) * Per) = 0)
             /\ p = Comb(z) /\ q \in Stack(Ss(z), AnyOf)
             /\ (Len(z) > 1 => Mod(Hash(q) + Seed, 11 * Len(z)) = 0)
        /\ x \in [nb : 1..3, nw : 1..3, fam : {"data"}] /\ x.nw <= x.nb
     \/ /\ kind = "phase"
        /\ \E z \in Pairs : (Len(z) > 1 => (Twins(z) \/ Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 4 ELSE 41) * Per) = 0))
             /\ p = Comb(z) /\ q \in Stack(Ss(z), AnyOf)
             /\ (Len(z) > 1 => Mod(Hash(q) + Seed, 5 * Len(z)) = 0)
             /\ x \in [DOMAIN z -> {-2, 0, 1, 3}]
             /\ (Len(z) > 1 => Mod(SumSeq([a \in DOMAIN z |-> a * x[a]]) + Seed, 7) = 0)
     \/ /\ kind = "place"
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 5 ELSE 31) * Per) = 0)
             /\ p = Comb(z) /\ q \in Stack(Ss(z), AnyOf)
             /\ (Len(z) > 1 => Mod(Hash(q) + Seed, 11 * Len(z)) = 0)
             /\ x \in [o : [DOMAIN z -> {-1, 0, 1, 4}], sh : [DOMAIN z -> 1..3]]
             /\ Mod(SumSeq([a \in DOMAIN z |-> a * x.o[a] + 3 * a * x.sh[a]]) + Seed, IF Len(z) = 1 THEN 3 ELSE IF Len(z) = 2 THEN 13 ELSE 97) = 0
     \/ /\ kind = "position" /\ x = 0
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 9 ELSE 97) * Per) = 0)
             /\ ProdSeq(Ls(z)) * ProdSeq(Ss(z)) <= 16
             /\ p = Comb(z) /\ q \in Stack(Ss(z), AnyOf)
             /\ (Len(z) > 1 => Mod(Hash(q) + Seed, 11 * Len(z)) = 0)
  /\ u = p /\ v = q
----------------------------------------------------------------------------
IsUnit == kind = "wannier" /\ x.fam = "unit"
NW == IF x.nw = 0 THEN x.nb ELSE x.nw
\* the bands: data, or states orthonormal up to the scale UnitScale
DW(b) == IF IsUnit THEN RMat(NP, NQ, LAMBDA l, s : RW((12 \div NQ) * b * s + 5 * l * (b + 1))) ELSE D(b)
UnitScale == IF IsUnit THEN NQ ELSE 1
\* the operator of sample l: entries over the square root of OpScale
Op(l) == IF IsUnit THEN RMat(x.nb, x.nb, LAMBDA i, b : RW((12 \div x.nb) * i * b + l * i * i + 2 * l))
         ELSE RMat(NW, x.nb, LAMBDA i, b : RDatum(Seed + 3 * l + 7 * i, b + 2 * l + i))
OpScale == IF IsUnit THEN x.nb ELSE 1
Ops == TLCEval(Arr(NP, LAMBDA l : TLCEval(Op(l))))
\* the diagonal operator of equal size
Dg(l, b) == RDatum(Seed + 5 * l, b + 3)
En(b, l) == Mod(5 * b + 7 * l + 3 * b * l + Seed, 11) - 4

Mixed(i) == LET o == Ops IN RMat(NP, NQ, LAMBDA l, s : RSumTo(x.nb, LAMBDA b : RMul(o[l + 1][i + 1][b + 1], DW(b)[l + 1][s + 1])))
\* matrix elements at sample l:  sum_b conj(O[i,b]) E_b O[j,b]
Ham(l) == LET o == Ops IN RMat(NW, NW, LAMBDA i, j : RSumTo(x.nb, LAMBDA b :
   RScale(En(b, l), RMul(RConj(o[l + 1][i + 1][b + 1]), o[l + 1][j + 1][b + 1]))))
Phase(l, o) == SumSeq([a \in DOMAIN p |-> (12 \div p[a].nf) * Digits(FShape(p), l)[a] * Digits(FShape(p), o)[a]])
\* Wannier states on the momenta of all cells, over sqrt(samples * scales)
WanOf(mix) == Arr(NW, LAMBDA i : LET M == TLCEval(RMM(mix[i + 1], RT(Cv(FK(q), q)))) IN
   Arr(PL, LAMBDA o : Arr(ProdSeq(LS), LAMBDA K : LET k == OfBig(K) IN RMul(RW(Phase(k[1], o)), M[k[1] + 1][k[2] + 1]))))
Wan == WanOf(Arr(NW, LAMBDA i : Mixed(i)))
\* element of the states (i, o), (j, o2), times the number of samples
HamAll(h, i, o, j, o2) == RSumTo(PL, LAMBDA l : RMul(RW(Phase(l, o2) - Phase(l, o)), h[l + 1][i + 1][j + 1]))

\* projections: any states on the momenta of all cells
G(j) == RData(Seed + 11 * j + Hash(q), ProdSeq(LS))
Overlap(T) == Arr(PL, LAMBDA l : RMat(x.nb, x.nw, LAMBDA b, j : LET g == TLCEval(G(j)) IN
   RSumTo(NFOf(q), LAMBDA s : RMul(RConj(T[b + 1][l + 1][s + 1]), g[Big(l, s) + 1]))))

\* position X of all cells as a flat index, from one index for each axis
FlatX(i) == Flat(LS, [a \in DOMAIN p |-> Mod(i[a], LS[a])])
\* the nearest image of index i to the origin in a period of n points (ties above)
Near(i, o, n) == Mod(i - o + (n \div 2), n) - (n \div 2)
\* positions of the evenly spaced points of shape sh
Spaced == LET m == ProdSeq(x.sh) IN Arr(m, LAMBDA f : LET d == Digits(x.sh, f) IN
   Flat(LS, [a \in DOMAIN p |-> (LS[a] * d[a]) \div x.sh[a]]))
\* wrapped origin in the cell, and offsets of every position from it
Origin == [a \in DOMAIN p |-> Near(x.o[a], 0, q[a].nf)]
Offsets == [a \in DOMAIN p |-> Arr(ProdSeq(LS), LAMBDA X : Near(Digits(LS, X)[a], Origin[a], LS[a]))]

EmitW == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, x |-> x] @@
  (CASE kind = "loc" -> LET o == Ops IN
         [data |-> Arr(x.nb, LAMBDA b : RFlatten(DW(b))), op |-> [l \in 1..NP |-> RFlatten(o[l])], en |-> Arr(x.nb, LAMBDA b : Arr(NP, LAMBDA l : En(b, l))),
          mixed |-> Arr(NW, LAMBDA i : RFlatten(Mixed(i))), ham |-> Arr(NP, LAMBDA l : RFlatten(Ham(l))),
          dg |-> Arr(NP, LAMBDA l : Arr(x.nb, LAMBDA b : Dg(l, b))),
          dmixed |-> Arr(x.nb, LAMBDA b : RFlatten(RMat(NP, NQ, LAMBDA l, s : RMul(Dg(l, b), DW(b)[l + 1][s + 1]))))]
    [] kind = "wannier" -> LET o == Ops h == TLCEval(Arr(NP, LAMBDA l : Ham(l))) IN
         [data |-> Arr(x.nb, LAMBDA b : RFlatten(DW(b))), op |-> [l \in 1..NP |-> RFlatten(o[l])], en |-> Arr(x.nb, LAMBDA b : Arr(NP, LAMBDA l : En(b, l))),
          us |-> UnitScale, os |-> OpScale, s |-> ScaleS(FK(q), q), nw |-> NW,
          ham |-> [l \in 1..NP |-> RFlatten(h[l])], wan |-> Wan,
          full |-> IF IsUnit THEN Arr(NW, LAMBDA i : Arr(PL, LAMBDA oo : Arr(NW, LAMBDA j : Arr(PL, LAMBDA o2 : HamAll(h, i, oo, j, o2))))) ELSE <<>>]
    [] kind = "project" -> LET T == TLCEval(Arr(x.nb, LAMBDA b : RMM(D(b), RT(Cv(FK(q), q))))) IN
         [data |-> Arr(x.nb, LAMBDA b : RFlatten(D(b))), s |-> ScaleS(FK(q), q), proj |-> Arr(x.nw, LAMBDA j : G(j)),
          over |-> LET A == TLCEval(Overlap(T)) IN [l \in 1..PL |-> RFlatten(A[l])]]
    [] kind = "phase" -> LET T == TLCEval(BlochK(RMM(D(0), RT(Cv(FK(q), q))))) IN
         [data |-> RFlatten(D(0)), s |-> ScaleS(FK(q), q), pos |-> FlatX(x),
          val |-> Arr(PL, LAMBDA l : Pos(T[l + 1], FlatX(x)))]
    [] kind = "place" ->
         [data |-> RFlatten(D(0)), spaced |-> Spaced, origin |-> Origin, off |-> Offsets, pos |-> FlatX(x.o)]
    [] kind = "position" -> LET T == TLCEval(Arr(2, LAMBDA b : BlochK(RMM(D(b), RT(Cv(FK(q), q)))))) N == ProdSeq(LS)
           P == TLCEval(Arr(2 * PL, LAMBDA l : TLCEval(Arr(N, LAMBDA X : Pos(T[(l \div PL) + 1][(l % PL) + 1], X))))) IN
         [data |-> Arr(2, LAMBDA b : RFlatten(D(b))), s |-> ScaleS(FK(q), q),
          mat |-> [a \in DOMAIN p |-> Arr(2 * PL, LAMBDA l : Arr(2 * PL, LAMBDA m :
             RSumTo(N, LAMBDA X : RScale(Digits(LS, X)[a], RMul(RConj(P[l + 1][X + 1]), P[m + 1][X + 1])))))]])))
----------------------------------------------------------------------------
\* orthonormal bands and unitary operators give orthonormal Wannier states
Dot(a, b) == RSumTo(Len(a), LAMBDA k : RMul(RConj(a[k + 1]), b[k + 1]))
Orthonormal == (ready /\ IsUnit /\ NW * PL <= 12) => LET w == TLCEval(Wan) IN
  \A i, j \in 1..NW : \A o, o2 \in 1..PL :
     Dot(w[i][o], w[j][o2]) = IF i = j /\ o = o2 THEN RInt(PL * UnitScale * OpScale * ScaleS(FK(q), q)) ELSE R0
\* each is the first of its kind moved against the axes by whole cells
Moved == (ready /\ kind = "wannier" /\ ProdSeq(LS) <= 12) => LET w == TLCEval(Wan) IN
  \A i \in 1..NW : \A o \in 0..PL - 1 : \A X \in {0, 1 % ProdSeq(LS), ProdSeq(LS) - 1} :
     Pos(w[i][o + 1], X) = Pos(w[i][1], Flat(LS, [a \in DOMAIN p |-> Mod(Digits(LS, X)[a] + q[a].nf * Digits(FShape(p), o)[a], LS[a])]))
\* the Hamiltonian is hermitian and keeps the trace
Hermitian == (ready /\ IsUnit) => LET h == TLCEval(Arr(NP, LAMBDA l : Ham(l))) IN
  /\ \A l \in 1..NP : h[l] = RAdj(h[l]) /\ RTrace(h[l]) = RInt(OpScale * SumTo(x.nb, LAMBDA b : En(b, l - 1)))
  /\ \A i, j \in 0..NW - 1 : \A o, o2 \in 0..PL - 1 : HamAll(h, i, o, j, o2) = RConj(HamAll(h, j, o2, i, o))
=============================================================================
