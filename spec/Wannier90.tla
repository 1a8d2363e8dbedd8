----------------------------- MODULE Wannier90 -----------------------------
(* The exchange of files with Wannier90 (formats of its user guide).       *)
(*  setup    the surface writes the cell and the samples; Wannier90 answers *)
(*           with the neighbours of every sample: k, k2, G with             *)
(*           k + b = k2 + G                                                 *)
(*  localize the surface writes M_mn(k, b) = <u_m(k)|u_n(k + b)> for each   *)
(*           of them, and A_mn(k) = <psi_m(k)|g_n>; Wannier90 answers with  *)
(*           U_mn(k), |w_n> = sum_m U_mn |psi_m>                            *)
(*  done     the operator of sample k has U_mn in row n and column m        *)
(* u(k + G) holds at s what u(k) holds at s + G; along an axis that is      *)
(* ignored u(k + G) is u(k).                                                *)
EXTENDS Wavepackets
CombN(z) == [a \in DOMAIN z |-> LeafLow("k", z[a][1], z[a][1])]
InitN ==
  /\ ready = FALSE
  /\ \/ /\ kind = "run"
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 3 ELSE 17) * Per) = 0)
             /\ p = CombN(z) /\ q \in Stack(Ss(z), AnyOf)
             /\ (Len(z) > 1 => Mod(Hash(q) + Seed, 5 * Len(z)) = 0)
             /\ x \in [nb : 1..3, fam : {"data", "site"}, ig : [DOMAIN z -> 0..1], with : 0..1, at : {0}]
             /\ (x.fam = "site" => x.nb = 1 /\ \A a \in DOMAIN z : x.ig[a] = 0 /\ q[a] = LeafLow("k", q[a].nf, q[a].nf))
             /\ (x.fam # "site" => Mod(SumSeq([a \in DOMAIN z |-> a * x.ig[a]]) + x.nb + 2 * x.with + Hash(q) + Seed, IF Len(z) = 1 THEN 2 ELSE IF Len(z) = 2 THEN 5 ELSE 11) = 0)
     \/ /\ kind = "sym"
        /\ \E s \in UNION {[1..d -> 1..5] : d \in 1..3} : p = [a \in DOMAIN s |-> LeafLow("k", s[a], s[a])] /\ (Len(s) = 3 => Mod(PH([a \in DOMAIN s |-> <<s[a], a>>]) + Seed, 3) = 0)
        /\ q = p /\ x \in [a : DOMAIN p, b : DOMAIN p] /\ p[x.a].n = p[x.b].n
  /\ u = p /\ v = q
----------------------------------------------------------------------------
NS == NFOf(q)
Site == [a \in DOMAIN p |-> (Seed + 2 * a) % LS[a]]
\* what the surface writes of u: the coefficients on the momenta of the cell
TN(b) == IF x.fam = "site"
         THEN RMat(PL, NS, LAMBDA l, s : LET dl == Digits(FShape(p), l) ds == Digits(FShape(q), s) IN
                RW(Mod(-SumSeq([a \in DOMAIN p |-> (12 \div LS[a]) * (Signed(dl[a], p[a].nf) + p[a].nf * Signed(ds[a], q[a].nf)) * Site[a]]), 12)))
         ELSE RMM(D(b), RT(Cv(FK(q), q)))
ScaleN == IF x.fam = "site" THEN 1 ELSE ScaleS(FK(q), q)
DN(b) == IF x.fam = "site" THEN TN(b) ELSE D(b)
\* the neighbours of sample l: one step either way along each of three axes
NDm == Len(p)
Step(l, a, t) == IF a > NDm THEN <<l, [i \in 1..3 |-> IF i = a THEN t ELSE 0]>>
  ELSE LET d == Digits(FShape(p), l) n == p[a].nf m == Signed(d[a], n) + t e == Mod(m, n) IN
    <<Flat(FShape(p), [d EXCEPT ![a] = e]), [i \in 1..3 |-> IF i = a THEN (m - Signed(e, n)) \div n ELSE 0]>>
Way(j) == <<(j \div 2) + 1, IF j % 2 = 0 THEN 1 ELSE -1>>
Nbr == Arr(PL, LAMBDA l : Arr(6, LAMBDA j : Step(l, Way(j)[1], Way(j)[2])))
Plus(s, g) == LET d == Digits(FShape(q), s) IN
  Flat(FShape(q), [a \in DOMAIN q |-> IF x.ig[a] = 1 THEN d[a] ELSE Mod(d[a] + g[a], q[a].nf)])
MElem(TT, l, nb, n, m) == LET A == TT[m + 1][l + 1] B == TT[n + 1][nb[1] + 1] IN
  RSumTo(NS, LAMBDA s : RMul(RConj(A[s + 1]), B[Plus(s, nb[2]) + 1]))
\* one block of the file for each neighbour: n outermost, m innermost
MFile == LET TT == TLCEval(Arr(x.nb, LAMBDA b : TN(b))) N == TLCEval(Nbr) IN
  Arr(PL, LAMBDA l : Arr(6, LAMBDA j : Arr(x.nb * x.nb, LAMBDA f : MElem(TT, l, N[l + 1][j + 1], f \div x.nb, f % x.nb))))
GN(j) == RData(Seed + 13 * j + Hash(q), ProdSeq(LS))
AElem == LET TT == TLCEval(Arr(x.nb, LAMBDA b : TN(b))) IN
  Arr(PL, LAMBDA l : RMat(x.nb, x.nb, LAMBDA m, n : LET g == TLCEval(GN(n)) IN
    RSumTo(NS, LAMBDA s : RMul(RConj(TT[m + 1][l + 1][s + 1]), g[Big(l, s) + 1]))))
UMat(l) == RMat(x.nb, x.nb, LAMBDA m, n : RDatum(Seed + 5 * l + 3 * m, n + 2 * l + m))
\* as it stands in the file: m innermost
UFile == Arr(PL, LAMBDA l : LET U == TLCEval(UMat(l)) IN Arr(x.nb * x.nb, LAMBDA f : U[(f % x.nb) + 1][(f \div x.nb) + 1]))
OpN == Arr(PL, LAMBDA l : RFlatten(RT(UMat(l))))
Loc == LET UU == TLCEval(Arr(PL, LAMBDA l : UMat(l))) DD == TLCEval(Arr(x.nb, LAMBDA b : DN(b))) IN
  Arr(x.nb, LAMBDA n : RFlatten(RMat(NP, NQ, LAMBDA l, s : RSumTo(x.nb, LAMBDA m : RMul(UU[l + 1][m + 1][n + 1], DD[m + 1][l + 1][s + 1])))))

Flip(f) == LET d == Digits(FShape(p), f) IN Flat(FShape(p), [d EXCEPT ![x.a] = Mod(-d[x.a], p[x.a].n)])
Swap(f) == LET d == Digits(FShape(p), f) IN Flat(FShape(p), [d EXCEPT ![x.a] = d[x.b], ![x.b] = d[x.a]])
\* the first of the samples that flips along every axis turn into one another
First(f) == LET d == Digits(FShape(p), f) IN
  Flat(FShape(p), [a \in DOMAIN p |-> LET m == Mod(-d[a], p[a].n) IN IF m < d[a] THEN m ELSE d[a]])

EmitN == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, x |-> x] @@
  (CASE kind = "run" ->
      [data |-> Arr(x.nb, LAMBDA b : RFlatten(DN(b))), s |-> ScaleN, nbr |-> Nbr, m |-> MFile, u |-> UFile, op |-> OpN, loc |-> Loc,
       num |-> Arr(PL, LAMBDA l : LET d == Digits(FShape(p), l) IN [a \in DOMAIN p |-> Signed(d[a], p[a].nf)]),
       proj |-> IF x.with = 1 THEN Arr(x.nb, LAMBDA j : GN(j)) ELSE <<>>,
       a |-> IF x.with = 1 THEN LET A == TLCEval(AElem) IN [l \in 1..PL |-> RFlatten(A[l])] ELSE <<>>]
    [] kind = "sym" -> [flip |-> Arr(NP, Flip), swap |-> Arr(NP, Swap), first |-> Arr(NP, First)])))
----------------------------------------------------------------------------
Samples == 0..PL - 1
\* every neighbour is one step away, and the step back is its opposite
Opposite(j) == IF j % 2 = 0 THEN j + 1 ELSE j - 1
Stepped == (ready /\ kind = "run") => LET N == TLCEval(Nbr) IN \A l \in Samples : \A j \in 0..5 :
  LET nb == N[l + 1][j + 1] back == N[nb[1] + 1][Opposite(j) + 1] IN
  /\ back[1] = l /\ \A i \in 1..3 : back[2][i] = -nb[2][i]
  /\ \A a \in DOMAIN p : Signed(Digits(FShape(p), nb[1])[a], p[a].nf) + p[a].nf * nb[2][a] - Signed(Digits(FShape(p), l)[a], p[a].nf)
                         = IF Way(j)[1] = a THEN Way(j)[2] ELSE 0
\* and its overlaps are the conjugates of those of the step there
Adjoint == (ready /\ kind = "run") => LET N == TLCEval(Nbr) M == TLCEval(MFile) IN \A l \in Samples : \A j \in 0..5 : \A n, m \in 0..x.nb - 1 :
  M[l + 1][j + 1][n * x.nb + m + 1] = RConj(M[N[l + 1][j + 1][1] + 1][Opposite(j) + 1][m * x.nb + n + 1])
\* a band of states about one point: every overlap is the phase of the step there
Centred == (ready /\ kind = "run" /\ x.fam = "site") => LET M == TLCEval(MFile) IN \A l \in Samples : \A j \in 0..5 :
  LET a == Way(j)[1] IN
  M[l + 1][j + 1][1] = RScale(NS, IF a > NDm THEN R1 ELSE RW(Mod(-((12 \div LS[a]) * Way(j)[2] * Site[a]), 12)))
Involution == (ready /\ kind = "sym") => \A f \in 0..NP - 1 :
  /\ Flip(Flip(f)) = f /\ Swap(Swap(f)) = f /\ First(First(f)) = First(f) /\ First(f) <= f /\ First(Flip(f)) = First(f)
=============================================================================
