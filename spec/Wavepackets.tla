---------------------------- MODULE Wavepackets ----------------------------
(* Bloch wavefunctions sampled over the first Brillouin zone.              *)
(* A wavepacket holds, for every sample l of the zone (a momentum of the   *)
(* list basis, L = (L_1, ..) samples along each axis) the periodic part    *)
(* u_l of a Bloch state in a basis of the unit cell (S points per axis).   *)
(* The Bloch state of sample l lives on the L * S grid of all L cells:     *)
(* its coefficient at momentum l + L s (mod L S) is that of u_l at s, and  *)
(* zero elsewhere.  The unfurled state is the sum of the Bloch states      *)
(* divided by sqrt(L_1 L_2 ..).                                            *)
EXTENDS R12, Json
CONSTANTS Seed, Per, MaxN
VARIABLES kind, p, q, u, v, x, ready
vars == <<kind, p, q, u, v, x>>

Ks(nf) == {LeafLow("k", nf, nf)} \cup (IF nf > 1 THEN {LeafLow("k", nf - 1, nf)} ELSE {})
          \cup (IF nf = 4 THEN {LeafEven("k", 2, 2, 1), LeafEven("k", 2, 2, -1)} ELSE {})
          \cup (IF nf = 3 THEN {LeafEven("k", 1, 3, -1)} ELSE {})
AnyOf(nf) == Ks(nf) \cup {LeafLow("x", nf, nf)} \cup (IF nf > 2 THEN {LeafLow("x", nf - 1, nf)} ELSE {})
Stack(s, F(_)) == CASE Len(s) = 1 -> {<<a>> : a \in F(s[1])}
                    [] Len(s) = 2 -> {<<a, b>> : a \in F(s[1]), b \in F(s[2])}
                    [] Len(s) = 3 -> {<<a, b, c>> : a \in F(s[1]), b \in F(s[2]), c \in F(s[3])}
Hash(b) == SumSeq([a \in DOMAIN b |-> (2 * a + 1) * (b[a].n + 3 * b[a].off + 5 * b[a].step + 2 * b[a].nf
              + (IF b[a].sp = "x" THEN 0 ELSE 7) + (IF b[a].cls = "low" THEN 0 ELSE 11))])
FK(b) == [a \in DOMAIN b |-> LeafLow("k", b[a].nf, b[a].nf)]
FX(b) == [a \in DOMAIN b |-> LeafLow("x", b[a].nf, b[a].nf)]
\* numbers of samples and of points along each axis: the product along an axis divides 12
Axis == {<<l, s>> \in (1..4) \X (1..4) : 12 % (l * s) = 0}
Pairs == {<<a>> : a \in Axis} \cup {<<a, b>> \in Axis \X Axis : a[1] * a[2] * b[1] * b[2] <= MaxN}
         \cup {<<a, b, c>> \in Axis \X Axis \X Axis : a[1] * a[2] * b[1] * b[2] * c[1] * c[2] <= MaxN /\ c[1] * c[2] <= 4 /\ a[1] + b[1] > 2}
PH(z) == SumSeq([a \in DOMAIN z |-> (2 * a + 1) * (z[a][1] + 5 * z[a][2])])
Ls(z) == [a \in DOMAIN z |-> z[a][1]]
Ss(z) == [a \in DOMAIN z |-> z[a][2]]

Init ==
  /\ ready = FALSE
  /\ \/ /\ kind = "bloch" /\ x = 0
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, 2 * Len(z) - 1) = 0)
             /\ p \in Stack(Ls(z), AnyOf) /\ q \in Stack(Ss(z), AnyOf)
             /\ Mod(5 * Hash(p) + 3 * Hash(q) + Seed,
                    (IF Len(z) = 1 THEN 2 ELSE IF Len(z) = 2 THEN 13 ELSE 97) * Per) = 0
        /\ u = FK(p) /\ v = FK(q)
     \/ /\ kind = "full" /\ x = 0
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 2 ELSE 23) * Per) = 0)
             /\ p = [a \in DOMAIN z |-> LeafLow("k", z[a][1], z[a][1])] /\ q \in Stack(Ss(z), AnyOf)
             /\ (Len(z) > 1 => Mod(Hash(q) + Seed, 7 * Len(z)) = 0)
        /\ u = FK(p) /\ v = FK(q)
     \/ /\ kind = "conv" /\ x = 0
        /\ \E z \in Pairs : Len(z) < 3 /\ (Len(z) = 2 => Mod(PH(z) + Seed, 7) = 0)
             /\ p \in Stack(Ls(z), AnyOf) /\ q \in Stack(Ss(z), AnyOf)
             /\ Mod(5 * Hash(p) + 3 * Hash(q) + Seed, (IF Len(z) = 1 THEN 3 ELSE 97) * Per) = 0
             /\ u \in Stack(Ls(z), AnyOf) /\ v \in Stack(Ss(z), AnyOf)
             /\ Mod(Hash(p) + 3 * Hash(q) + 5 * Hash(u) + 7 * Hash(v) + Seed, (IF Len(z) = 1 THEN 11 ELSE 13) * Per) = 0
     \/ /\ kind = "fractions" /\ x = 0
        /\ \E s \in UNION {[1..d -> 1..4] : d \in 1..3} : p \in Stack(s, Ks) /\ (Len(s) = 3 => Mod(Hash(p) + Seed, 41) = 0)
        /\ q = p /\ u = p /\ v = p
     \/ /\ kind = "generate"
        /\ \E z \in Pairs : Len(z) < 3 /\ (Len(z) = 2 => Mod(PH(z) + Seed, 11) = 0)
             /\ p \in Stack(Ls(z), Ks) /\ q = [a \in DOMAIN z |-> LeafLow("x", z[a][2], z[a][2])]
             /\ Mod(Hash(p) + Seed, Len(z)) = 0
        /\ u = p /\ v = q
        /\ x \in {<<n, st, of>> \in (1..4) \X (1..2) \X (0..2) : of + st * (n - 1) < NOf(q)}
     \/ /\ kind = "shape"
        /\ \E s, t \in UNION {[1..d -> 1..6] : d \in 1..2} :
             /\ Len(s) = Len(t) /\ \A a \in DOMAIN s : s[a] % t[a] = 0
             /\ p = [a \in DOMAIN s |-> LeafLow("k", s[a], s[a])]
             /\ u = [a \in DOMAIN s |-> LeafLow("k", t[a], t[a])]
             /\ (Len(s) = 2 => Mod(Hash(p) + 3 * Hash(u) + Seed, 7) = 0)
        /\ q = p /\ v = p /\ x = 0
     \/ /\ kind = "window"
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, 4 * Len(z)) = 0)
             /\ p = [a \in DOMAIN z |-> LeafLow("k", z[a][1], z[a][1])]
             /\ q = [a \in DOMAIN z |-> LeafLow("k", z[a][2], z[a][2])]
             /\ x \in [DOMAIN z -> {-3, -1, 0, 2, 5}]
             /\ (Len(z) > 1 => Mod(SumSeq([a \in DOMAIN z |-> a * x[a]]) + Seed, 9) = 0)
        /\ u = p /\ v = q
Next == ~ready /\ ready' = TRUE /\ UNCHANGED vars
----------------------------------------------------------------------------
NB == 2
NP == NOf(p)
NQ == NOf(q)
LS == [a \in DOMAIN p |-> p[a].nf * q[a].nf]
PL == NFOf(p)
\* band b: a matrix (samples, states)
D(b) == RUnflat(RData(Seed + 5 * b + Hash(p) + 3 * Hash(q), NP * NQ), NP, NQ)
E(b) == Arr(NP, LAMBDA l : RDatum(Seed + 3 * b + 1, l))
Cv(b2, b1) == LET m == TLCEval(MatS(12, b2, b1)) IN TLCEval([i \in DOMAIN m |-> TLCEval([j \in DOMAIN m[i] |-> RE(m[i][j])])])
RT(A) == LET a == TLCEval(A) IN RMat(Len(a[1]), Len(a), LAMBDA i, j : a[j + 1][i + 1])
\* data re-expressed: samples in pp, states in qq (over sqrt of both scales)
To(b, pp, qq) == RMM(RMM(Cv(pp, p), D(b)), RT(Cv(qq, q)))
ToE(b, pp) == RMM(Cv(pp, p), RUnflat(E(b), NP, 1))

Signed(i, n) == IF 2 * i < n THEN i ELSE i - n
\* momentum on the full grid of sample l (flat) and state s (flat)
Big(l, s) == LET dl == Digits(FShape(p), l) ds == Digits(FShape(q), s) IN
  Flat(LS, [a \in DOMAIN p |-> Mod(Signed(dl[a], p[a].nf) + p[a].nf * Signed(ds[a], q[a].nf), LS[a])])
\* sample and state of momentum K on the full grid: K = l (mod L), and the rest
OfBig(K) == LET d == Digits(LS, K) IN
  LET ll == [a \in DOMAIN p |-> Mod(d[a], p[a].nf)] IN
  <<Flat(FShape(p), ll),
    Flat(FShape(q), [a \in DOMAIN p |-> Mod(FDiv(Signed(d[a], LS[a]) - Signed(ll[a], p[a].nf), p[a].nf), q[a].nf)])>>
Unfurled(T) == Arr(ProdSeq(LS), LAMBDA K : LET o == OfBig(K) IN T[o[1] + 1][o[2] + 1])
BlochK(T) == Arr(PL, LAMBDA l : Arr(ProdSeq(LS), LAMBDA K : LET o == OfBig(K) IN
   IF o[1] = l THEN T[l + 1][o[2] + 1] ELSE R0))

\* positions kept around an origin: those of the unit cell of points nearest to it
Kept == Arr(ProdSeq(LS), LAMBDA f : LET d == Digits(LS, f) IN
  IF \A a \in DOMAIN p : \E i \in 0..q[a].nf - 1 : Mod(x[a] - (q[a].nf \div 2) + i, LS[a]) = d[a] THEN 1 ELSE 0)

\* energies of state s at sample l (distinct for each sample), and the place of each in order
Energy(l, s) == Mod(7 * s + 3 * l + Seed, 13) * 4 + s
Rank(l, r) == CHOOSE s \in 0..NQ - 1 : Cardinality({t \in 0..NQ - 1 : Energy(l, t) < Energy(l, s)}) = r

Emit == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, u |-> u, v |-> v] @@
  (CASE kind \in {"bloch", "full"} -> LET T == Arr(NB, LAMBDA b : To(b, FK(p), FK(q))) IN
          [data |-> Arr(NB, LAMBDA b : RFlatten(D(b))), eig |-> Arr(NB, E), s |-> ScaleS(FK(p), p) * ScaleS(FK(q), q),
           unf |-> [b \in 1..NB |-> Unfurled(T[b])], bloch |-> [b \in 1..NB |-> BlochK(T[b])]]
    [] kind = "conv" ->
          [data |-> Arr(NB, LAMBDA b : RFlatten(D(b))), eig |-> Arr(NB, E), s |-> ScaleS(u, p) * ScaleS(v, q), se |-> ScaleS(u, p),
           to |-> Arr(NB, LAMBDA b : RFlatten(To(b, u, v))), toe |-> Arr(NB, LAMBDA b : RFlatten(ToE(b, u)))]
    [] kind = "fractions" ->
          [num |-> Arr(NP, LAMBDA f : LET d == Digits(Shape(p), f) IN
             [a \in DOMAIN p |-> Signed(Idx(p[a])[d[a] + 1], p[a].nf)]), den |-> FShape(p)]
    [] kind = "generate" -> [bands |-> x, num |-> Arr(NP, LAMBDA f : LET d == Digits(Shape(p), f) IN
             [a \in DOMAIN p |-> Signed(Idx(p[a])[d[a] + 1], p[a].nf)]),
          energy |-> Arr(NP, LAMBDA l : Arr(NQ, LAMBDA s : Energy(l, s))),
          state |-> Arr(x[1], LAMBDA b : Arr(NP, LAMBDA l : Rank(l, x[3] + x[2] * b)))]
    [] kind = "shape" -> [src |-> Arr(NOf(u), LAMBDA f : LET d == Digits(Shape(u), f) IN
             Flat(Shape(p), [a \in DOMAIN p |-> d[a] * (p[a].n \div u[a].n)]))]
    [] kind = "window" -> [origin |-> x, kept |-> Kept])))
----------------------------------------------------------------------------
\* every momentum of the full grid is that of one sample and one state
Bijective == (ready /\ kind = "bloch") => \A l \in 0..PL - 1 : \A s \in 0..NFOf(q) - 1 : OfBig(Big(l, s)) = <<l, s>>
\* Bloch's theorem: moved by one cell along an axis the state of sample l gets the phase
\* exp(2 pi i l / L).  (position values: sum over K of the coefficient times w^(K X))
Pos(c, X) == RSumTo(ProdSeq(LS), LAMBDA K : LET d == Digits(LS, K) e == Digits(LS, X) IN
  RMul(RW(SumSeq([a \in DOMAIN p |-> (12 \div LS[a]) * d[a] * e[a]])), c[K + 1]))
Move(X, a) == LET e == Digits(LS, X) IN Flat(LS, [e EXCEPT ![a] = Mod(e[a] + q[a].nf, LS[a])])
Bloch == (ready /\ kind = "full" /\ ProdSeq(LS) <= 12) =>
  LET B == TLCEval(BlochK(To(0, FK(p), FK(q)))) IN
  \A l \in 0..PL - 1 : \A X \in {0, 1 % ProdSeq(LS), ProdSeq(LS) - 1} : \A a \in DOMAIN p :
     Pos(B[l + 1], Move(X, a)) = RMul(RW((12 \div p[a].nf) * Digits(FShape(p), l)[a]), Pos(B[l + 1], X))
\* with complete bases the unfurled state has the norm of the data
Norm2(c) == RSumTo(Len(c), LAMBDA i : RMul(RConj(c[i + 1]), c[i + 1]))
Unitary == (ready /\ kind = "bloch" /\ NP = NFOf(p) /\ NQ = NFOf(q)) =>
  LET T == TLCEval(To(0, FK(p), FK(q))) IN
  Norm2(Unfurled(T)) = RScale(ScaleS(FK(p), p) * ScaleS(FK(q), q), Norm2(RFlatten(D(0))))
\* taking fewer samples keeps their momenta
Resample == (ready /\ kind = "shape") => \A a \in DOMAIN p : \A i \in 0..u[a].n - 1 :
  LET r == p[a].n \div u[a].n IN Mod(Signed(i * r, p[a].n) - r * Signed(i, u[a].n), p[a].n) = 0
Windowed == (ready /\ kind = "window") => SumSeq(Kept) = NFOf(q)
Ordered == (ready /\ kind = "generate") => \A l \in 0..NP - 1 : {Rank(l, r) : r \in 0..NQ - 1} = 0..NQ - 1
=============================================================================
