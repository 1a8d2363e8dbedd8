------------------------------- MODULE States -------------------------------
(* States and what is measured of them: norms, inner products, expectation *)
(* values and weighted sums, for states written in different bases.        *)
(* a: NA states in basis p;  b: NB states in basis q;  op between (u, v).  *)
(* <a|b> pairs the coefficients of a with b re-expressed in p; a value is  *)
(* emitted with the product s of sizes it is to be divided by (a conversion*)
(* carries 1/sqrt of its scale).                                           *)
EXTENDS R12, Json
CONSTANTS Seed, Per
VARIABLES kind, p, q, u, v, ready
vars == <<kind, p, q, u, v>>

Few(nf) ==
  {LeafLow(sp, n, nf) : sp \in {"x", "k"}, n \in {nf, Max2(nf - 1, 1)}}
  \cup {LeafEven("k", 1, nf, nf - 1)}
  \cup (IF nf = 4 THEN {LeafEven("k", 2, 2, 1)} ELSE {})
Shapes == {<<3>>, <<4>>, <<2, 2>>, <<2, 3>>}
Stacks(s) == IF Len(s) = 1 THEN {<<x>> : x \in Few(s[1])}
             ELSE {<<x, y>> : x \in Few(s[1]), y \in Few(s[2])}
Hash(b) == SumSeq([a \in DOMAIN b |-> (2 * a + 1) * (b[a].n + 3 * b[a].off + 5 * b[a].step
              + (IF b[a].sp = "x" THEN 0 ELSE 7) + (IF b[a].cls = "low" THEN 0 ELSE 11))])
Kinds == {"inner", "expect"}
\* larger grids, drawn from Seed: with waves when the sizes divide twelve, positions otherwise
WideSeq == <<<<12>>, <<4, 3>>, <<9>>, <<6>>, <<16>>, <<2, 6>>, <<7>>, <<5, 3>>, <<8>>, <<11>>, <<2, 7>>>>
WFew(nf) == IF 12 % nf = 0 THEN {LeafLow("x", nf, nf), LeafLow("k", nf, nf), LeafLow("k", Max2(nf - 1, 1), nf)}
            ELSE {LeafLow("x", nf, nf), LeafLow("x", nf - 1, nf)}
WStacks(s) == IF Len(s) = 1 THEN {<<x>> : x \in WFew(s[1])}
              ELSE {<<x, y>> : x \in WFew(s[1]), y \in WFew(s[2])}
RECURSIVE ASeq(_)
ASeq(X) == IF X = {} THEN <<>> ELSE LET x == TLCEval(CHOOSE x \in X : TRUE) IN <<x>> \o ASeq(TLCEval(X \ {x}))
Draw(s, h) == LET x == TLCEval(ASeq(WStacks(s))) IN x[Mod(h, Len(x)) + 1]
Init ==
  /\ ready = FALSE
  /\ \/ /\ kind \in Kinds
        /\ \E s \in Shapes :
          /\ p \in Stacks(s) /\ q \in Stacks(s)
          /\ Mod(5 * Hash(p) + 3 * Hash(q) + Seed, IF Len(s) = 1 THEN Per ELSE 11 * Per) = 0
          /\ IF kind = "inner" THEN u = q /\ v = q
             ELSE /\ u \in Stacks(s) /\ v \in Stacks(s)
                  /\ Mod(Hash(p) + 3 * Hash(q) + 7 * Hash(u) + 2 * Hash(v) + Seed, IF Len(s) = 1 THEN 31 * Per ELSE 311 * Per) = 0
     \/ /\ kind = "diagonal"
        /\ \E s \in Shapes :
          /\ p \in Stacks(s) /\ q = p /\ u \in Stacks(s) /\ v = u
          /\ Mod(5 * Hash(p) + 3 * Hash(u) + Seed, IF Len(s) = 1 THEN 1 ELSE 9) = 0
     \/ /\ kind \in {"inner", "expect", "diagonal"}
        /\ \E r \in 1..(IF Per = 1 THEN 24 ELSE 8) :
             LET h == Mod(Seed, 9973) * 37 + r * 101 + (IF kind = "inner" THEN 0 ELSE IF kind = "expect" THEN 17 ELSE 29)
                 s == WideSeq[Mod(h \div 2, Len(WideSeq)) + 1] IN
             /\ p = Draw(s, h)
             /\ q = (IF kind = "diagonal" THEN p ELSE Draw(s, h \div 3))
             /\ u = (IF kind = "inner" THEN q ELSE Draw(s, h \div 5))
             /\ v = (IF kind = "expect" THEN Draw(s, h \div 7) ELSE u)
     \/ /\ kind = "average"
        /\ \E s \in {<<3>>, <<2, 3>>, <<2, 1, 3>>, <<9>>, <<5, 4>>} : p = [a \in DOMAIN s |-> LeafLow("x", s[a], s[a])]
        /\ q = <<LeafLow("x", 2, 2)>> /\ u = q /\ v = q
     \* states localised by equal occupation of the lowest momenta: p has the number of
     \* cells (n) and points in a cell (nf), q the number of states for each axis
     \/ /\ kind = "free"
        /\ \E d \in 1..2 : \E l, s, b \in [1..d -> 1..4] :
             /\ \A a \in 1..d : b[a] <= s[a]
             /\ d = 2 => Mod(l[1] + 2 * l[2] + 3 * s[1] + 5 * s[2] + b[1] + 7 * b[2] + Seed, 61) = 0
             /\ \A a \in 1..d : 12 % (l[a] * b[a]) = 0
             /\ p = [a \in 1..d |-> [cls |-> "low", sp |-> "x", n |-> l[a], nf |-> s[a], step |-> 1, off |-> 0]]
             /\ q = [a \in 1..d |-> LeafLow("x", b[a], b[a])]
        /\ u = q /\ v = q
Next == ~ready /\ ready' = TRUE /\ UNCHANGED vars

NA == 2
NB == 3
NP == NOf(p)     NQ == NOf(q)
A(i) == RUnflat(RData(Seed + 5 * i + Hash(p), NP), NP, 1)
B(j) == RUnflat(RData(Seed + 7 * j + 3 + Hash(q), NQ), NQ, 1)
Cv(b2, b1) == LET m == TLCEval(MatS(12, b2, b1)) IN TLCEval([i \in DOMAIN m |-> TLCEval([j \in DOMAIN m[i] |-> RE(m[i][j])])])
S(b2, b1) == ScaleS(b2, b1)
Pair(x, y) == RMM(RAdj(x), y)[1][1]
Inner == LET c == TLCEval(Cv(p, q)) IN Arr(NA, LAMBDA i : Arr(NB, LAMBDA j : Pair(A(i), RMM(c, B(j)))))
Norm2(x) == Pair(x, x)
\* the sum of the states with complex weights (not conjugated)
W(i) == RDatum(Seed + 2, i)

\* <a| O |b> for a in u, b in v: the operator's own bases
O == RUnflat(RData(Seed + 11 + Hash(u), NOf(u) * NOf(v)), NOf(u), NOf(v))
X(i) == RUnflat(RData(Seed + 5 * i + Hash(u), NOf(u)), NOf(u), 1)
Y == RUnflat(RData(Seed + 9 + Hash(v), NOf(v)), NOf(v), 1)
Sandwich == Pair(X(0), RMM(O, Y))
\* <a| O |a> with O re-expressed in the basis of a
Expect(i) == LET m == RMM(Cv(p, u), RMM(O, Cv(v, p))) IN Pair(A(i), RMM(m, A(i)))     \* over sqrt S(p,u) S(v,p)
\* a diagonal operator in u: the state is re-expressed in u
Dg == Arr(NOf(u), LAMBDA i : RDatum(Seed + 4, i))
ExpectD(i) == LET c == TLCEval(RMM(Cv(u, p), A(i))) IN
  RSumTo(NOf(u), LAMBDA k : RMul(Dg[k + 1], RMul(RConj(c[k + 1][1]), c[k + 1][1])))   \* over S(u,p)

\* averages over axes of a list label: every state of the list, summed
Shp == [a \in DOMAIN p |-> p[a].n]
Ls == ProdSeq(Shp)
St(f) == RData(Seed + 3 * f, 2)
AxSets == {T \in SUBSET (1..Len(Shp)) : T # {}}
Keep(T) == SelectSeq([a \in 1..Len(Shp) |-> a], LAMBDA a : a \notin T)
SumAx(T) == LET k == Keep(T) ks == [i \in 1..Len(k) |-> Shp[k[i]]] IN
  Arr(ProdSeq(ks), LAMBDA f : LET d == Digits(ks, f) IN
    [c \in 1..2 |-> RSumTo(Ls, LAMBDA g : LET e == Digits(Shp, g) IN
       IF \A i \in 1..Len(k) : e[k[i]] = d[i] THEN St(g)[c] ELSE R0)])
RECURSIVE SetSeq(_)
SetSeq(Z) == IF Z = {} THEN <<>> ELSE LET z == TLCEval(CHOOSE z \in Z : TRUE) IN <<z>> \o SetSeq(TLCEval(Z \ {z}))
Avgs == [i \in 1..Cardinality(AxSets) |-> LET T == SetSeq(AxSets)[i] IN [ax |-> SetSeq(T), sum |-> SumAx(T),
           count |-> ProdSeq([a \in 1..Len(Shp) |-> IF a \in T THEN Shp[a] ELSE 1])]]

\* free localised states: state b (one for each of q points in a cell, the one around the
\* origin, so b < q / 2 or b - q) has the phase exp(-2 pi i b k / (cells * states)) at every
\* momentum k among the lowest cells * states
FN == [a \in DOMAIN p |-> p[a].n * q[a].n]
Near(b, n) == IF 2 * b < n THEN b ELSE b - n
Free == Arr(NQ, LAMBDA b : LET db == Digits(Shape(q), b) IN
   Arr(ProdSeq(FN), LAMBDA k : LET dk == Digits(FN, k) IN
     RW(Mod(-SumSeq([a \in DOMAIN p |-> (12 \div FN[a]) * Near(db[a], q[a].n) * dk[a]]), 12))))

Vec(x) == [i \in DOMAIN x |-> x[i][1]]
Emit == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, u |-> u, v |-> v] @@
  (CASE kind = "inner" -> [a |-> [i \in 1..NA |-> Vec(A(i - 1))], b |-> [j \in 1..NB |-> Vec(B(j - 1))],
          inner |-> Inner, s |-> S(p, q), norm2 |-> [i \in 1..NA |-> Norm2(A(i - 1))],
          self |-> Arr(NA, LAMBDA i : Arr(NA, LAMBDA j : Pair(A(i), A(j)))),
          w |-> Arr(NA, W), weighted |-> Arr(NP, LAMBDA r : RSumTo(NA, LAMBDA i : RMul(W(i), A(i)[r + 1][1])))]
    [] kind = "expect" -> [a |-> [i \in 1..NA |-> Vec(A(i - 1))], o |-> RFlatten(O), e |-> Arr(NA, Expect), s |-> S(p, u) * S(v, p),
          x |-> Vec(X(0)), y |-> Vec(Y), sandwich |-> Sandwich]
    [] kind = "diagonal" -> [a |-> [i \in 1..NA |-> Vec(A(i - 1))], d |-> Dg, e |-> Arr(NA, ExpectD), s |-> S(u, p)]
    [] kind = "average" -> [data |-> Arr(Ls, St), avg |-> Avgs]
    [] kind = "free" -> [free |-> Free])))
----------------------------------------------------------------------------
\* inner products are hermitian, and converting both states changes nothing when the
\* bases are complete
Hermitian == (ready /\ kind = "inner") => \A i, j \in 1..NA :
  Pair(A(i - 1), A(j - 1)) = RConj(Pair(A(j - 1), A(i - 1)))
Complete_(b) == \A a \in DOMAIN b : b[a].n = b[a].nf
Unitary == (ready /\ kind = "inner" /\ Complete_(p) /\ Complete_(q)) =>
  LET c == TLCEval(Cv(p, q)) IN \A j \in 0..NB - 1 :
    Norm2(RMM(c, B(j))) = RScale(S(p, q), Norm2(B(j)))
\* localised free states are orthogonal, of norm the number of momenta
Localised == (ready /\ kind = "free") => LET f == TLCEval(Free) IN \A i, j \in 1..NQ :
  RSumTo(ProdSeq(FN), LAMBDA k : RMul(RConj(f[i][k + 1]), f[j][k + 1])) = IF i = j THEN RInt(ProdSeq(FN)) ELSE R0
=============================================================================
